From 082e64f0be98972a43ef69ec7123d3ea49d8d9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 01/54] Add shpool_verif cfg: re-exports for external
 verification harnesses

---
 libshpool/src/daemon/mod.rs | 41 +++++++++++++++++++++++
 libshpool/src/lib.rs        | 67 +++++++++++++++++++++++++++++++++++++
 2 files changed, 108 insertions(+)

diff --git a/libshpool/src/daemon/mod.rs b/libshpool/src/daemon/mod.rs
index fa26992..2231d20 100644
--- a/libshpool/src/daemon/mod.rs
+++ b/libshpool/src/daemon/mod.rs
@@ -33,6 +33,47 @@ mod systemd;
 mod trie;
 mod ttl_reaper;
 
+/// Re-exports for verification harnesses, see `crate::verif`.
+#[cfg(shpool_verif)]
+pub mod verif {
+    pub mod etc_environment {
+        pub use super::super::etc_environment::*;
+    }
+    pub mod events {
+        pub use super::super::events::*;
+    }
+    pub mod exit_notify {
+        pub use super::super::exit_notify::*;
+    }
+    pub mod keybindings {
+        pub use super::super::keybindings::*;
+    }
+    pub mod pager {
+        pub use super::super::pager::*;
+    }
+    pub mod server {
+        pub use super::super::server::*;
+    }
+    pub mod shell {
+        pub use super::super::shell::*;
+    }
+    pub mod shell_inject {
+        pub use super::super::shell_inject::*;
+    }
+    pub mod show_motd {
+        pub use super::super::show_motd::*;
+    }
+    pub mod signals {
+        pub use super::super::signals::*;
+    }
+    pub mod trie {
+        pub use super::super::trie::*;
+    }
+    pub mod ttl_reaper {
+        pub use super::super::ttl_reaper::*;
+    }
+}
+
 #[instrument(skip_all)]
 pub fn run(
     config_manager: config::Manager,
diff --git a/libshpool/src/lib.rs b/libshpool/src/lib.rs
index ee9e2ac..dbf5a8b 100644
--- a/libshpool/src/lib.rs
+++ b/libshpool/src/lib.rs
@@ -12,6 +12,9 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+// The shpool_verif cfg is only ever set by external verification harnesses.
+#![allow(unexpected_cfgs)]
+
 use std::{
     collections::hash_map::DefaultHasher,
     env, fs,
@@ -50,6 +53,70 @@ mod tty;
 mod user;
 mod var;
 
+/// Re-exports of internal items for verification harnesses which live
+/// outside this tree. Never compiled unless `--cfg shpool_verif` is set.
+#[cfg(shpool_verif)]
+#[doc(hidden)]
+pub mod verif {
+    pub mod attach {
+        pub use crate::attach::*;
+    }
+    pub mod common {
+        pub use crate::common::*;
+    }
+    pub mod config {
+        pub use crate::config::*;
+    }
+    pub mod config_watcher {
+        pub use crate::config_watcher::*;
+    }
+    pub mod consts {
+        pub use crate::consts::*;
+    }
+    pub mod daemon {
+        pub use crate::daemon::verif::*;
+    }
+    pub mod daemonize {
+        pub use crate::daemonize::*;
+    }
+    pub mod detach {
+        pub use crate::detach::*;
+    }
+    pub mod duration {
+        pub use crate::duration::*;
+    }
+    pub mod events {
+        pub use crate::events::*;
+    }
+    pub mod hooks {
+        pub use crate::hooks::*;
+    }
+    pub mod kill {
+        pub use crate::kill::*;
+    }
+    pub mod list {
+        pub use crate::list::*;
+    }
+    pub mod protocol {
+        pub use crate::protocol::*;
+    }
+    pub mod session_restore {
+        pub use crate::session_restore::*;
+    }
+    pub mod template {
+        pub use crate::template::*;
+    }
+    pub mod tty {
+        pub use crate::tty::*;
+    }
+    pub mod user {
+        pub use crate::user::*;
+    }
+    pub mod var {
+        pub use crate::var::*;
+    }
+}
+
 /// The command line arguments that shpool expects.
 /// These can be directly parsed with clap or manually
 /// constructed in order to present some other user
-- 
2.43.0


From d66a67e2806b4fd725a5dfc976fde2deeb92d862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 02/54] fix: correct the swapped key codes of Ctrl-x and Ctrl-y

---
 libshpool/src/daemon/keybindings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libshpool/src/daemon/keybindings.rs b/libshpool/src/daemon/keybindings.rs
index ddb9ade..2bd8028 100644
--- a/libshpool/src/daemon/keybindings.rs
+++ b/libshpool/src/daemon/keybindings.rs
@@ -458,8 +458,8 @@ const CONTROL_CODES: [(&str, u8); 42] = [
     ("Ctrl-u", 21),
     ("Ctrl-v", 22),
     ("Ctrl-w", 23),
-    ("Ctrl-y", 24),
-    ("Ctrl-x", 25),
+    ("Ctrl-x", 24),
+    ("Ctrl-y", 25),
     ("Ctrl-z", 26),
     ("Ctrl-@", 0),
     ("Ctrl-2", 0),
-- 
2.43.0


From ba95c77d0633b4b6baa5b5c03fa8eec399ea1a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 03/54] fix: let bindings use different names for the same key
 press

---
 libshpool/src/daemon/keybindings.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libshpool/src/daemon/keybindings.rs b/libshpool/src/daemon/keybindings.rs
index 2bd8028..4f1f97f 100644
--- a/libshpool/src/daemon/keybindings.rs
+++ b/libshpool/src/daemon/keybindings.rs
@@ -129,11 +129,14 @@ impl Bindings {
             let tokens =
                 tokenizer.tokenize(binding_src.chars()).context("tokenizing keybinding")?;
             let sequence = parse(tokens).context("parsing keybinding")?;
+            let mut atoms = vec![];
             for chord in sequence.0.iter() {
                 // resolving the key code will also check the validity
                 let code = chord.key_code()?;
 
-                let chord_atom = chord_atom_tab.entry(chord.clone()).or_insert_with(|| {
+                // Key the atoms by code, since some chords (Ctrl-Space and Ctrl-@ for
+                // example) are different names for the same key press.
+                let chord_atom = chord_atom_tab.entry(code).or_insert_with(|| {
                     let atom = ChordAtom(chord_atom_counter as u8);
                     chord_atom_counter += 1;
                     atom
@@ -146,9 +149,9 @@ impl Bindings {
                 }
 
                 chords.insert(vec![code].into_iter(), *chord_atom);
+                atoms.push(*chord_atom);
             }
-            sequences
-                .insert(sequence.0.iter().map(|chord| *chord_atom_tab.get(chord).unwrap()), action);
+            sequences.insert(atoms.into_iter(), action);
         }
 
         Ok(Bindings {
-- 
2.43.0


From db8ffe1408821435a8124104b61978064ede225e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 04/54] fix: reject empty and truncated keybindings rather than
 shortening them

---
 libshpool/src/daemon/keybindings.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libshpool/src/daemon/keybindings.rs b/libshpool/src/daemon/keybindings.rs
index 4f1f97f..4d8013e 100644
--- a/libshpool/src/daemon/keybindings.rs
+++ b/libshpool/src/daemon/keybindings.rs
@@ -343,9 +343,10 @@ fn parse<T: IntoIterator<Item = Token>>(tokens: T) -> anyhow::Result<Sequence> {
         }
     }
 
-    if !keys.is_empty() {
-        chords.push(Chord(keys));
+    if saw_dash {
+        return Err(anyhow!("expected a key at the end of the binding"));
     }
+    chords.push(Chord(keys));
 
     Ok(Sequence(chords))
 }
@@ -424,6 +425,10 @@ impl Lexer {
             }
         }
 
+        if !word_chars.is_empty() {
+            return Err(anyhow!("incomplete key: '{}'", word_chars.iter().collect::<String>()));
+        }
+
         Ok(tokens)
     }
 }
-- 
2.43.0


From ed03b18e53e5cf2b18cdb3d8be89346d23aa4a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 05/54] fix: report overflowing and malformed durations as
 errors

---
 libshpool/src/duration.rs | 51 +++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/libshpool/src/duration.rs b/libshpool/src/duration.rs
index 076dfec..07b9712 100644
--- a/libshpool/src/duration.rs
+++ b/libshpool/src/duration.rs
@@ -36,44 +36,43 @@ fn parse_colon_duration(src: &str) -> anyhow::Result<time::Duration> {
     if parts.is_empty() {
         bail!("'{}' must have at least one part", src);
     }
-    let mut secs = parts[0].parse::<u64>().context("parsing seconds part")?;
-    dbg!(secs);
-    if parts.len() == 1 {
-        return Ok(time::Duration::from_secs(secs));
-    }
-    secs += parts[1].parse::<u64>().context("parsing minutes part")? * 60;
-    dbg!(secs);
-    if parts.len() == 2 {
-        return Ok(time::Duration::from_secs(secs));
-    }
-    secs += parts[2].parse::<u64>().context("parsing hours part")? * 60 * 60;
-    dbg!(secs);
-    if parts.len() == 3 {
-        return Ok(time::Duration::from_secs(secs));
-    }
-    secs += parts[3].parse::<u64>().context("parsing days part")? * 60 * 60 * 24;
-    dbg!(secs);
-    if parts.len() != 4 {
+    if parts.len() > 4 {
         bail!("colon duration cannot have more than 4 parts");
     }
 
+    const UNITS: [(&str, u64); 4] =
+        [("seconds", 1), ("minutes", 60), ("hours", 60 * 60), ("days", 60 * 60 * 24)];
+    let mut secs: u64 = 0;
+    for (part, (unit, unit_secs)) in parts.iter().zip(UNITS) {
+        let n = part.parse::<u64>().with_context(|| format!("parsing {unit} part"))?;
+        secs = n
+            .checked_mul(unit_secs)
+            .and_then(|n| secs.checked_add(n))
+            .ok_or_else(|| anyhow!("duration '{}' is too large", src))?;
+    }
+
     Ok(time::Duration::from_secs(secs))
 }
 
 /// Parses 20d, 3h, 14m ect
 fn parse_suffix_duration(src: &str) -> anyhow::Result<time::Duration> {
-    let num: String = src.chars().take_while(|c| c.is_numeric()).collect();
     let c = src.chars().last().ok_or(anyhow!("internal error: no suffix"))?;
-    make_suffix_duration(num.parse::<u64>().context("parsing num part of duration")?, c)
-        .ok_or(anyhow!("unknown time unit '{}'", c))
+    let num = &src[..src.len() - c.len_utf8()];
+    let unit_secs = suffix_secs(c).ok_or(anyhow!("unknown time unit '{}'", c))?;
+    num.parse::<u64>()
+        .context("parsing num part of duration")?
+        .checked_mul(unit_secs)
+        .map(time::Duration::from_secs)
+        .ok_or_else(|| anyhow!("duration '{}' is too large", src))
 }
 
-fn make_suffix_duration(n: u64, c: char) -> Option<time::Duration> {
+/// The number of seconds in the unit with the given suffix.
+fn suffix_secs(c: char) -> Option<u64> {
     match c {
-        's' => Some(time::Duration::from_secs(n)),
-        'm' => Some(time::Duration::from_secs(n * 60)),
-        'h' => Some(time::Duration::from_secs(n * 60 * 60)),
-        'd' => Some(time::Duration::from_secs(n * 60 * 60 * 24)),
+        's' => Some(1),
+        'm' => Some(60),
+        'h' => Some(60 * 60),
+        'd' => Some(60 * 60 * 24),
         _ => None,
     }
 }
-- 
2.43.0


From e931475bdaec3c3ebdf63d55665ae55173e35cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:57 +0000
Subject: [PATCH 06/54] fix: find sentinels which directly follow a partial
 match

---
 libshpool/src/daemon/shell_inject.rs | 54 +++++++++++++++++-----------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/libshpool/src/daemon/shell_inject.rs b/libshpool/src/daemon/shell_inject.rs
index 7cd90d0..45c3c67 100644
--- a/libshpool/src/daemon/shell_inject.rs
+++ b/libshpool/src/daemon/shell_inject.rs
@@ -26,7 +26,6 @@ use tracing::{debug, error, info, instrument, warn};
 
 use crate::{
     consts::{SENTINEL_FLAG_VAR, STARTUP_SENTINEL},
-    daemon::trie::{Trie, TrieCursor},
     exe, test_hooks,
 };
 
@@ -217,38 +216,53 @@ fn sniff_shell(pid: libc::pid_t) -> anyhow::Result<KnownShell> {
     }
 }
 
-/// A trie for scanning through shell output to look for the sentinel.
+/// A scanner for looking through shell output to find the sentinel.
 pub struct SentinelScanner {
-    scanner: Trie<u8, (), Vec<Option<usize>>>,
-    cursor: TrieCursor,
+    sentinel: Vec<u8>,
+    /// fallback[n] is the length of the longest proper prefix of the sentinel
+    /// which is also a suffix of its first n + 1 bytes. This is how much of
+    /// a failed match can still be the start of the real sentinel.
+    fallback: Vec<usize>,
+    /// How many bytes of the sentinel we have just seen.
+    matched: usize,
     num_matches: usize,
 }
 
 impl SentinelScanner {
     /// Create a new sentinel scanner.
     pub fn new(sentinel: &str) -> Self {
-        let mut scanner = Trie::new();
-        scanner.insert(sentinel.bytes(), ());
+        let sentinel = sentinel.as_bytes().to_vec();
+        let mut fallback = vec![0; sentinel.len()];
+        let mut len = 0;
+        for i in 1..sentinel.len() {
+            while len > 0 && sentinel[i] != sentinel[len] {
+                len = fallback[len - 1];
+            }
+            if sentinel[i] == sentinel[len] {
+                len += 1;
+            }
+            fallback[i] = len;
+        }
 
-        SentinelScanner { scanner, cursor: TrieCursor::Start, num_matches: 0 }
+        SentinelScanner { sentinel, fallback, matched: 0, num_matches: 0 }
     }
 
     // Pump the given byte through the scanner, returning true if the underlying
     // shell has finished printing the sentinel value.
     pub fn transition(&mut self, byte: u8) -> bool {
-        self.cursor = self.scanner.advance(self.cursor, byte);
-        match self.cursor {
-            TrieCursor::NoMatch => {
-                self.cursor = TrieCursor::Start;
-                false
-            }
-            TrieCursor::Match { is_partial, .. } if !is_partial => {
-                self.cursor = TrieCursor::Start;
-                self.num_matches += 1;
-                debug!("got prompt sentinel match #{}", self.num_matches);
-                self.num_matches == 1
-            }
-            _ => false,
+        while self.matched > 0 && self.sentinel[self.matched] != byte {
+            self.matched = self.fallback[self.matched - 1];
+        }
+        if self.sentinel[self.matched] == byte {
+            self.matched += 1;
         }
+        if self.matched < self.sentinel.len() {
+            return false;
+        }
+
+        self.matched = 0;
+        self.num_matches += 1;
+        debug!("got prompt sentinel match #{}", self.num_matches);
+        self.num_matches == 1
     }
 }
-- 
2.43.0


From 0b0297faeeced1865a5154e6fc16e3a40f85b3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:52 +0000
Subject: [PATCH 07/54] fix: skip undecodable lines of /etc/environment instead
 of failing every attach

---
 libshpool/src/daemon/etc_environment.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libshpool/src/daemon/etc_environment.rs b/libshpool/src/daemon/etc_environment.rs
index 8f010ae..8fab5de 100644
--- a/libshpool/src/daemon/etc_environment.rs
+++ b/libshpool/src/daemon/etc_environment.rs
@@ -13,12 +13,17 @@ use tracing::{debug, warn};
 pub fn parse_compat<R: Read>(file: R) -> anyhow::Result<Vec<(String, String)>> {
     let mut pairs = vec![];
     let mut etc_env = BufReader::new(file);
-    let mut line = String::new();
+    let mut raw_line = Vec::new();
     loop {
-        line.clear();
-        match etc_env.read_line(&mut line) {
+        raw_line.clear();
+        match etc_env.read_until(b'\n', &mut raw_line) {
             Ok(0) => break, // EOF
             Ok(_) => {
+                // A line we can't decode must not hide the other lines.
+                let Ok(line) = std::str::from_utf8(&raw_line) else {
+                    warn!("parsing /etc/environment: line is not valid utf-8");
+                    continue;
+                };
                 let mut line = line.trim();
                 if line.is_empty() || line.starts_with('#') {
                     debug!("parsing /etc/environment: blank or comment line");
-- 
2.43.0


From 0a98c29510b65eeee081e2e281eab6e1c05a14e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:31 +0000
Subject: [PATCH 08/54] fix: do not drop the first byte of a read when a
 keybinding follows right after it

---
 libshpool/src/daemon/shell.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index 9ab07b5..9f31563 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -900,7 +900,7 @@ impl SessionInner {
                             Match(action) => {
                                 info!("{:?} keybinding action fired", action);
                                 let keybinding_len = partial_keybinding.len() + 1;
-                                if keybinding_len < i {
+                                if keybinding_len <= i {
                                     // this keybinding is wholly contained in buf
                                     debug!("snipping keybinding_len={} i={}", keybinding_len, i);
                                     snip_sections.push((keybinding_len, i));
-- 
2.43.0


From a000a321cce3841a27af1caeca52d0779c3e9a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:02 +0000
Subject: [PATCH 09/54] fix: deliver input typed before a detach keybinding in
 the same read

---
 libshpool/src/daemon/shell.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index 9f31563..5d7a0cd 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -867,6 +867,7 @@ impl SessionInner {
                     // the data), but just doing it inline doesn't seem have have
                     // a major perf impact, and this way is simpler.
                     snip_sections.clear();
+                    let mut detach_at = None;
                     for (i, byte) in buf[0..len].iter().enumerate() {
                         use keybindings::BindingResult::*;
                         match bindings.transition(*byte) {
@@ -915,15 +916,19 @@ impl SessionInner {
                                 use keybindings::Action::*;
                                 match action {
                                     Detach => {
-                                        self.action_detach()?;
-                                        debug!("exiting client->shell thread after detach");
-                                        return Ok(());
+                                        detach_at = Some(i);
+                                        break;
                                     }
                                     NoOp => {}
                                 }
                             }
                         }
                     }
+                    if let Some(i) = detach_at {
+                        // anything typed after the detach binding is dropped,
+                        // but what came before it still belongs to the shell
+                        len = i + 1;
+                    }
                     if !partial_keybinding.is_empty() {
                         // we have a partial keybinding pending, so don't write
                         // it to the output stream immediately
@@ -947,6 +952,12 @@ impl SessionInner {
                     master_writer.flush().context("flushing input from client to shell")?;
 
                     debug!("flushed chunk of len {}", len);
+
+                    if detach_at.is_some() {
+                        self.action_detach()?;
+                        debug!("exiting client->shell thread after detach");
+                        return Ok(());
+                    }
                 }
             })
             .map_err(|e| anyhow!("{:?}", e))
-- 
2.43.0


From 73a5265b6999993589517cdef7567c9b3c99d5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:19 +0000
Subject: [PATCH 10/54] fix: forward the shell's last output before the exit
 status

---
 libshpool/src/daemon/shell.rs | 75 ++++++++++++++++++++++++++++++-----
 1 file changed, 65 insertions(+), 10 deletions(-)

diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index 5d7a0cd..27d8d94 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -59,6 +59,11 @@ const REATTACH_RESIZE_DELAY: time::Duration = time::Duration::from_millis(50);
 // messages are noticed quickly without spinning the CPU.
 const SHELL_TO_CLIENT_POLL_MS: u16 = 50;
 
+// The most output we will still forward to the client once the shell has
+// exited. A terminal does not buffer more than this, but background jobs might
+// keep on writing to it forever.
+const EXIT_DRAIN_LIMIT: usize = 4 * consts::BUF_SIZE;
+
 // How long to wait before giving up while trying to talk to the
 // shell->client thread.
 const SHELL_TO_CLIENT_CTL_TIMEOUT: time::Duration = time::Duration::from_millis(300);
@@ -369,15 +374,7 @@ impl SessionInner {
                                     .context("sending client disconnect ack")?;
                             }
                             Ok(ClientConnectionMsg::DisconnectExit(exit_status)) => {
-                                let ack = if let ClientConnectionMsg::New(mut old_conn) = client_conn {
-                                    info!("disconnectexit({}), shutting down client stream",
-                                           exit_status);
-
-                                    // write an exit status frame so the attach process
-                                    // can exit with the same exit code as the child shell
-                                    Self::write_exit_chunk(&mut old_conn.sink, exit_status);
-                                    shutdown_socket(&old_conn.stream, net::Shutdown::Both)?;
-
+                                let ack = if let ClientConnectionMsg::New(_) = &client_conn {
                                     ClientConnectionStatus::Detached
                                 } else {
                                     info!(
@@ -385,9 +382,28 @@ impl SessionInner {
                                           exit_status);
                                     ClientConnectionStatus::DetachNone
                                 };
+                                // we are not going to listen for messages any more
                                 args.client_connection_ack.send(ack)
                                     .context("sending client disconnect exit ack")?;
 
+                                if let ClientConnectionMsg::New(mut old_conn) = client_conn {
+                                    info!("disconnectexit({}), shutting down client stream",
+                                           exit_status);
+
+                                    if has_seen_prompt_sentinel {
+                                        if let Err(e) = Self::forward_remaining_output(
+                                            &mut pty_master, &mut poll_fds,
+                                            &mut old_conn, &mut buf) {
+                                            warn!("forwarding remaining output: {:?}", e);
+                                        }
+                                    }
+
+                                    // write an exit status frame so the attach process
+                                    // can exit with the same exit code as the child shell
+                                    Self::write_exit_chunk(&mut old_conn.sink, exit_status);
+                                    shutdown_socket(&old_conn.stream, net::Shutdown::Both)?;
+                                }
+
                                 return Ok(());
                             }
 
@@ -546,9 +562,14 @@ impl SessionInner {
                 if nready != 1 {
                     return Err(anyhow!("shell->client thread: expected exactly 1 ready fd"));
                 }
+                // N.B. the shell's last output might still be waiting to be read when
+                // the pty master hangs up
                 let hangup = poll_fds[0]
                     .revents()
-                    .map(|r| r.intersects(PollFlags::POLLHUP | PollFlags::POLLERR))
+                    .map(|r| {
+                        r.intersects(PollFlags::POLLHUP | PollFlags::POLLERR)
+                            && !r.contains(PollFlags::POLLIN)
+                    })
                     .unwrap_or(false);
                 if hangup {
                     info!("pty master hung up, exiting shell->client thread");
@@ -632,6 +653,40 @@ impl SessionInner {
             .spawn(move || log_if_error("error in shell->client", closure()))?)
     }
 
+    /// Once the shell has exited, pass on whatever it still had written to its
+    /// terminal.
+    fn forward_remaining_output(
+        pty_master: &mut shpool_pty::fork::Master,
+        poll_fds: &mut [poll::PollFd],
+        conn: &mut ClientConnection,
+        buf: &mut [u8],
+    ) -> anyhow::Result<()> {
+        // a client which has stopped reading must not hold us up
+        conn.stream
+            .set_write_timeout(Some(consts::SOCK_STREAM_TIMEOUT))
+            .context("setting write timeout")?;
+
+        let mut forwarded = 0;
+        while forwarded < EXIT_DRAIN_LIMIT {
+            poll::poll(poll_fds, 0u16).context("polling pty master")?;
+            if !poll_fds[0].revents().map(|r| r.contains(PollFlags::POLLIN)).unwrap_or(false) {
+                break;
+            }
+            let len = pty_master.read(buf).map_err(|e| anyhow!("reading pty master: {:?}", e))?;
+            if len == 0 {
+                break;
+            }
+            let chunk = Chunk { kind: ChunkKind::Data, buf: &buf[..len] };
+            chunk
+                .write_to(&mut conn.sink)
+                .and_then(|_| conn.sink.flush())
+                .context("writing data chunk")?;
+            forwarded += len;
+        }
+
+        Ok(())
+    }
+
     fn write_exit_chunk<W: io::Write>(mut sink: W, status: i32) {
         let status_buf: [u8; 4] = status.to_le_bytes();
         let chunk = Chunk { kind: ChunkKind::ExitStatus, buf: status_buf.as_slice() };
-- 
2.43.0


From 4b46aafb678972efba03bd7acaf4482f2ee15577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:24 +0000
Subject: [PATCH 11/54] fix: let only one of several clients create a session
 at a time

---
 libshpool/src/daemon/server.rs | 79 ++++++++++++++++++++++------------
 1 file changed, 52 insertions(+), 27 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 20814ea..1d39545 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -13,7 +13,7 @@
 // limitations under the License.
 
 use std::{
-    collections::HashMap,
+    collections::{HashMap, HashSet},
     env,
     ffi::OsString,
     fs, io, net,
@@ -73,6 +73,10 @@ pub struct Server {
     /// handle_conn can delegate to worker threads and quickly allow
     /// the main thread to become available to accept new connections.
     shells: Arc<Mutex<HashMap<String, Box<shell::Session>>>>,
+    /// The names of the sessions which are being created right now. Creating
+    /// a session takes a while, and we don't hold the lock on the table
+    /// meanwhile, so this is how other clients know to keep out.
+    creating: Mutex<HashSet<String>>,
     runtime_dir: PathBuf,
     register_new_reapable_session: crossbeam_channel::Sender<(String, Instant)>,
     hooks: Box<dyn hooks::Hooks + Send + Sync>,
@@ -126,6 +130,7 @@ impl Server {
         Ok(Arc::new(Server {
             config,
             shells,
+            creating: Mutex::new(HashSet::new()),
             runtime_dir,
             register_new_reapable_session: new_sess_tx,
             hooks,
@@ -419,7 +424,7 @@ impl Server {
         // while grubbing about for an existing session, then release it
         // so that we do not hold it during shell startup, which might
         // fail.
-        {
+        let _reservation = {
             // we unwrap to propagate the poison as an unwind
             let _s = span!(Level::INFO, "select_shell_lock_1(shells)").entered();
             let shells = self.shells.lock();
@@ -504,18 +509,16 @@ impl Server {
 
                     // fallthrough to bidi streaming
                 } else {
-                    info!("busy shell session, doing nothing");
-                    // The stream is busy, so we just inform the client and close the stream.
-                    write_reply(&mut stream, AttachReplyHeader { status: AttachStatus::Busy })?;
-                    stream.shutdown(net::Shutdown::Both).context("closing stream")?;
-                    if let Err(err) = self.hooks.on_busy(&header.name) {
-                        warn!("busy hook: {:?}", err);
-                    }
-                    Err(ShellSelectionError::BusyShellSession)?;
+                    self.turn_away(&mut stream, header)?;
                 }
             } else {
                 info!("no existing '{}' session, creating new one", &header.name);
             }
+
+            match NameReservation::new(&self.creating, &header.name) {
+                Some(r) => r,
+                None => return self.turn_away(&mut stream, header),
+            }
         };
 
         info!("creating new subshell");
@@ -536,6 +539,11 @@ impl Server {
             session_name_template: header.name_template.clone(),
             pid: peer_pid,
         });
+        // Take hold of the inner session before anyone else can see it, so that
+        // we can work with it without the global session table lock held
+        let child_exit_notifier = Arc::clone(&session.child_exit_notifier);
+        let inner = session.inner.lock_arc();
+        let pager_ctl = Arc::clone(&session.pager_ctl);
         {
             let _s = span!(Level::INFO, "select_shell_lock_2(shells)").entered();
             let mut shells = self.shells.lock();
@@ -549,25 +557,19 @@ impl Server {
             self.events_bus.publish(&events::Event::SessionAttached);
         }
 
-        // we unwrap to propagate the poison as an unwind
-        let _s = span!(Level::INFO, "select_shell_lock_3(shells)").entered();
-        let shells = self.shells.lock();
+        Ok((Some((child_exit_notifier, inner, pager_ctl)), AttachStatus::Created { warnings }))
+    }
 
-        // return a reference to the inner session so that
-        // we can work with it without the global session
-        // table lock held
-        if let Some(session) = shells.get(&header.name) {
-            Ok((
-                Some((
-                    Arc::clone(&session.child_exit_notifier),
-                    session.inner.lock_arc(),
-                    Arc::clone(&session.pager_ctl),
-                )),
-                AttachStatus::Created { warnings },
-            ))
-        } else {
-            Ok((None, AttachStatus::UnexpectedError(String::from("selecting session"))))
+    /// Tell a client that the session it wants is busy. Always an error.
+    fn turn_away<T>(&self, stream: &mut UnixStream, header: &AttachHeader) -> anyhow::Result<T> {
+        info!("busy shell session, doing nothing");
+        // The stream is busy, so we just inform the client and close the stream.
+        write_reply(stream, AttachReplyHeader { status: AttachStatus::Busy })?;
+        stream.shutdown(net::Shutdown::Both).context("closing stream")?;
+        if let Err(err) = self.hooks.on_busy(&header.name) {
+            warn!("busy hook: {:?}", err);
         }
+        Err(ShellSelectionError::BusyShellSession)?
     }
 
     #[instrument(skip_all)]
@@ -1300,6 +1302,29 @@ impl Server {
     }
 }
 
+/// Holds on to the name of a session while it is being created.
+struct NameReservation<'a> {
+    creating: &'a Mutex<HashSet<String>>,
+    name: &'a str,
+}
+
+impl<'a> NameReservation<'a> {
+    /// Returns None if someone else is creating a session of this name.
+    fn new(creating: &'a Mutex<HashSet<String>>, name: &'a str) -> Option<Self> {
+        if creating.lock().insert(String::from(name)) {
+            Some(NameReservation { creating, name })
+        } else {
+            None
+        }
+    }
+}
+
+impl Drop for NameReservation<'_> {
+    fn drop(&mut self) {
+        self.creating.lock().remove(self.name);
+    }
+}
+
 // HACK: this is not a good way to detect shells that don't support our
 // sentinel injection approach, but it is better than just hanging when a
 // user tries to start one.
-- 
2.43.0


From b317c3d14b248bd3511d1ae839a6c7c67fe48ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:00 +0000
Subject: [PATCH 12/54] fix: take killed sessions out of the table once each,
 whatever else goes wrong

---
 libshpool/src/daemon/server.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 1d39545..8471a35 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -744,9 +744,18 @@ impl Server {
             let mut shells = self.shells.lock();
 
             let mut to_remove = Vec::with_capacity(request.sessions.len());
+            let mut kill_res = Ok(());
             for session in request.sessions.into_iter() {
+                if to_remove.contains(&session) {
+                    // asked for twice
+                    continue;
+                }
                 if let Some(s) = shells.get(&session) {
-                    s.kill().context("killing shell proc")?;
+                    if let Err(e) = s.kill() {
+                        // the sessions which are already dead still have to go
+                        kill_res = Err(e).context("killing shell proc");
+                        break;
+                    }
 
                     // we don't need to wait since the dedicated reaping thread is active
                     // even when a tty is not attached
@@ -763,6 +772,7 @@ impl Server {
             if !to_remove.is_empty() {
                 test_hooks::emit("daemon-handle-kill-removed-shells");
             }
+            kill_res?;
         }
 
         write_reply(&mut stream, KillReply { not_found_sessions }).context("writing kill reply")?;
-- 
2.43.0


From 43c682b326641894daea3c752d428498c8a132cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 13/54] fix: keep a departing client's bookkeeping off a newer
 session of the same name

---
 libshpool/src/daemon/server.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 8471a35..112412c 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -293,6 +293,13 @@ impl Server {
         test_hooks::emit("handle-attach-before-inner-session-lock");
 
         if let Some((child_exit_notifier, mut inner, pager_ctl_slot)) = shell_results {
+            // By the time we are done our session might have been removed, and another
+            // one of the same name created, so check it is still ours.
+            let own_exit_notifier = Arc::clone(&child_exit_notifier);
+            let is_ours = |session: &shell::Session| {
+                Arc::ptr_eq(&session.child_exit_notifier, &own_exit_notifier)
+            };
+
             let mut child_done = false;
             let client_stream = match inner.client_stream.as_mut() {
                 Some(s) => s,
@@ -360,10 +367,11 @@ impl Server {
                 {
                     let _s = span!(Level::INFO, "2_lock(shells)").entered();
                     let mut shells = self.shells.lock();
-                    // The publish below is gated on `is_some()` because a
+                    // The publish below is gated on the entry being there because a
                     // concurrent kill or reaper may have already removed the
                     // entry (and published) while we were waiting for the lock.
-                    if shells.remove(&header.name).is_some() {
+                    if shells.get(&header.name).map(|s| is_ours(s)).unwrap_or(false) {
+                        shells.remove(&header.name);
                         self.events_bus.publish(&events::Event::SessionRemoved);
                     }
                 }
@@ -383,7 +391,7 @@ impl Server {
                 {
                     let _s = span!(Level::INFO, "disconnect_lock(shells)").entered();
                     let shells = self.shells.lock();
-                    if let Some(session) = shells.get(&header.name) {
+                    if let Some(session) = shells.get(&header.name).filter(|s| is_ours(s)) {
                         session.lifecycle.record_detached();
                         self.events_bus.publish(&events::Event::SessionDetached);
                     }
-- 
2.43.0


From aa07788a9c4861c5e7f0f3061d14ceffd0b966bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:11 +0000
Subject: [PATCH 14/54] fix: answer requests about sessions whose shell is gone
 or stuck in bounded time

---
 libshpool/src/daemon/server.rs | 39 ++++++++++++++++++----------------
 libshpool/src/daemon/shell.rs  | 17 +++++++++++++++
 2 files changed, 38 insertions(+), 18 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 112412c..db0c116 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -635,6 +635,7 @@ impl Server {
     fn handle_detach(&self, mut stream: UnixStream, request: DetachRequest) -> anyhow::Result<()> {
         let mut not_found_sessions = vec![];
         let mut not_attached_sessions = vec![];
+        let mut detach_res = Ok(());
         {
             let _s = span!(Level::INFO, "lock(shells)").entered();
             let shells = self.shells.lock();
@@ -642,14 +643,15 @@ impl Server {
                 if let Some(s) = shells.get(&session) {
                     let _s = span!(Level::INFO, "lock(shell_to_client_ctl)", s = session).entered();
                     let shell_to_client_ctl = s.shell_to_client_ctl.lock();
-                    shell_to_client_ctl
-                        .client_connection
-                        .send(shell::ClientConnectionMsg::Disconnect)
-                        .context("sending client detach to shell->client")?;
-                    let status = shell_to_client_ctl
-                        .client_connection_ack
-                        .recv()
-                        .context("getting client conn ack")?;
+                    // We hold the lock on the table of sessions, so we must not wait
+                    // for long if the shell->client thread is stuck.
+                    let status = match shell_to_client_ctl.disconnect(SESSION_MSG_TIMEOUT) {
+                        Ok(status) => status,
+                        Err(e) => {
+                            detach_res = Err(e).context("detaching client");
+                            continue;
+                        }
+                    };
                     info!("detached session({}), status = {:?}", session, status);
                     if let shell::ClientConnectionStatus::DetachNone = status {
                         not_attached_sessions.push(session);
@@ -664,6 +666,7 @@ impl Server {
                 }
             }
         }
+        detach_res?;
 
         write_reply(&mut stream, DetachReply { not_found_sessions, not_attached_sessions })
             .context("writing detach reply")?;
@@ -880,10 +883,16 @@ impl Server {
                     let _s = span!(Level::INFO, "lock(shell_to_client_ctl)").entered();
                     let shell_to_client_ctl = shell_to_client_ctl.lock();
 
-                    shell_to_client_ctl
+                    match shell_to_client_ctl
                         .tty_size_change
                         .send_timeout(resize_request.tty_size, SESSION_MSG_TIMEOUT)
-                        .context("sending tty size change to shell->client")?;
+                    {
+                        // the shell has exited
+                        Err(crossbeam_channel::SendTimeoutError::Disconnected(_)) => {
+                            return Ok(SessionMessageReply::NotFound)
+                        }
+                        res => res.context("sending tty size change to shell->client")?,
+                    }
                     shell_to_client_ctl
                         .tty_size_change_ack
                         .recv_timeout(SESSION_MSG_TIMEOUT)
@@ -905,14 +914,8 @@ impl Server {
                 let _s = span!(Level::INFO, "lock(shell_to_client_ctl)").entered();
                 let shell_to_client_ctl = shell_to_client_ctl.lock();
 
-                shell_to_client_ctl
-                    .client_connection
-                    .send_timeout(shell::ClientConnectionMsg::Disconnect, SESSION_MSG_TIMEOUT)
-                    .context("sending client detach to shell->client")?;
-                let status = shell_to_client_ctl
-                    .client_connection_ack
-                    .recv_timeout(SESSION_MSG_TIMEOUT)
-                    .context("getting client conn ack")?;
+                let status =
+                    shell_to_client_ctl.disconnect(SESSION_MSG_TIMEOUT).context("detaching client")?;
                 info!("detached session({}), status = {:?}", header.session_name, status);
                 Ok(SessionMessageReply::Detach(SessionMessageDetachReply::Ok))
             }
diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index 27d8d94..4097728 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -1187,6 +1187,23 @@ pub struct ShellToClientCtl {
     pub maybe_switch: crossbeam_channel::Sender<MaybeSwitch>,
 }
 
+impl ShellToClientCtl {
+    /// Make the shell->client thread let go of its client.
+    pub fn disconnect(&self, timeout: time::Duration) -> anyhow::Result<ClientConnectionStatus> {
+        match self.client_connection.send_timeout(ClientConnectionMsg::Disconnect, timeout) {
+            Ok(()) => {}
+            // The thread exits along with the shell, so there is no client any more.
+            Err(crossbeam_channel::SendTimeoutError::Disconnected(_)) => {
+                return Ok(ClientConnectionStatus::DetachNone)
+            }
+            Err(e) => {
+                return Err(anyhow!("{}", e)).context("sending client detach to shell->client")
+            }
+        }
+        self.client_connection_ack.recv_timeout(timeout).context("getting client conn ack")
+    }
+}
+
 /// Given a buffer, a length after which the data is not valid, a list of
 /// sections to remove, and some scratch space, compact the given buffer and
 /// return a new len.
-- 
2.43.0


From b4a1970e9fade639149a6a0fc94af62c1c790322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 15/54] fix: never block the output thread on an answer no one
 waits for

---
 libshpool/src/daemon/shell.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index 4097728..9863d61 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -222,6 +222,22 @@ where
     })
 }
 
+/// Answer a message to the shell->client thread. If it took us so long that whoever
+/// sent the message has given up on it, the answer is dropped, since no one is ever
+/// going to take it.
+fn send_ack<T>(ack_chan: &crossbeam_channel::Sender<T>, ack: T) -> anyhow::Result<()> {
+    match ack_chan.send_timeout(ack, SHELL_TO_CLIENT_CTL_TIMEOUT) {
+        Ok(()) => Ok(()),
+        Err(crossbeam_channel::SendTimeoutError::Timeout(_)) => {
+            warn!("no one is waiting for our ack");
+            Ok(())
+        }
+        Err(crossbeam_channel::SendTimeoutError::Disconnected(_)) => {
+            Err(anyhow!("ack channel disconnected"))
+        }
+    }
+}
+
 /// Shutdown a socket, ignoring ENOTCONN errors which can occur on macOS
 /// when the peer has already disconnected.
 fn shutdown_socket(
@@ -305,8 +321,7 @@ impl SessionInner {
             info!("waiting for initial client connection");
             let mut client_conn: ClientConnectionMsg =
                 args.client_connection.recv().context("waiting for initial client connection")?;
-            args.client_connection_ack
-                .send(ClientConnectionStatus::New)
+            send_ack(&args.client_connection_ack, ClientConnectionStatus::New)
                 .context("sending initial client connection ack")?;
             info!("got initial client connection");
 
@@ -355,7 +370,7 @@ impl SessionInner {
                                 });
                                 client_conn = ClientConnectionMsg::New(conn);
 
-                                args.client_connection_ack.send(ack)
+                                send_ack(&args.client_connection_ack, ack)
                                     .context("sending client connection ack")?;
                             }
                             Ok(ClientConnectionMsg::Disconnect) => {
@@ -370,7 +385,7 @@ impl SessionInner {
                                 };
                                 client_conn = ClientConnectionMsg::Disconnect;
 
-                                args.client_connection_ack.send(ack)
+                                send_ack(&args.client_connection_ack, ack)
                                     .context("sending client disconnect ack")?;
                             }
                             Ok(ClientConnectionMsg::DisconnectExit(exit_status)) => {
@@ -383,7 +398,7 @@ impl SessionInner {
                                     ClientConnectionStatus::DetachNone
                                 };
                                 // we are not going to listen for messages any more
-                                args.client_connection_ack.send(ack)
+                                send_ack(&args.client_connection_ack, ack)
                                     .context("sending client disconnect exit ack")?;
 
                                 if let ClientConnectionMsg::New(mut old_conn) = client_conn {
@@ -425,7 +440,7 @@ impl SessionInner {
                                     // for reconnects.
                                     when: time::Instant::now(),
                                 });
-                                args.tty_size_change_ack.send(())
+                                send_ack(&args.tty_size_change_ack, ())
                                     .context("sending size change ack")?;
                             }
                             Err(err) => {
@@ -455,7 +470,7 @@ impl SessionInner {
                             false
                         };
 
-                        args.heartbeat_ack.send(client_present)
+                        send_ack(&args.heartbeat_ack, client_present)
                             .context("sending heartbeat ack")?;
                     }
                     recv(args.maybe_switch) -> maybe_switch => {
-- 
2.43.0


From 39ce315e47a5f828dd426b8fd87442ac460f4180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 16/54] fix: reap only the session the time to live was given
 to, and survive huge ones

---
 libshpool/src/daemon/server.rs     | 21 ++++++-----
 libshpool/src/daemon/ttl_reaper.rs | 56 ++++++++++++++++--------------
 2 files changed, 41 insertions(+), 36 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index db0c116..552ce13 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -17,7 +17,6 @@ use std::{
     env,
     ffi::OsString,
     fs, io, net,
-    ops::Add,
     os,
     os::unix::{
         fs::PermissionsExt as _,
@@ -78,7 +77,7 @@ pub struct Server {
     /// meanwhile, so this is how other clients know to keep out.
     creating: Mutex<HashSet<String>>,
     runtime_dir: PathBuf,
-    register_new_reapable_session: crossbeam_channel::Sender<(String, Instant)>,
+    register_new_reapable_session: crossbeam_channel::Sender<ttl_reaper::Registration>,
     hooks: Box<dyn hooks::Hooks + Send + Sync>,
     events_bus: Arc<events::EventBus>,
     daily_messenger: Arc<show_motd::DailyMessenger>,
@@ -547,6 +546,9 @@ impl Server {
             session_name_template: header.name_template.clone(),
             pid: peer_pid,
         });
+        // A ttl which can't be added to the current time never runs out.
+        let reap_at =
+            header.ttl_secs.and_then(|ttl| Instant::now().checked_add(Duration::from_secs(ttl)));
         // Take hold of the inner session before anyone else can see it, so that
         // we can work with it without the global session table lock held
         let child_exit_notifier = Arc::clone(&session.child_exit_notifier);
@@ -565,6 +567,14 @@ impl Server {
             self.events_bus.publish(&events::Event::SessionAttached);
         }
 
+        // The reaper must not look for the session before it is in the table.
+        if let Some(reap_at) = reap_at {
+            info!("registering session with ttl with the reaper");
+            self.register_new_reapable_session
+                .send((header.name.clone(), Arc::downgrade(&child_exit_notifier), reap_at))
+                .context("sending reapable session registration msg")?;
+        }
+
         Ok((Some((child_exit_notifier, inner, pager_ctl)), AttachStatus::Created { warnings }))
     }
 
@@ -1185,13 +1195,6 @@ impl Server {
                 child_exit_notifier: shell_to_client_child_exit_notifier,
             })?);
 
-        if let Some(ttl_secs) = header.ttl_secs {
-            info!("registering session with ttl with the reaper");
-            self.register_new_reapable_session
-                .send((header.name.clone(), Instant::now().add(Duration::from_secs(ttl_secs))))
-                .context("sending reapable session registration msg")?;
-        }
-
         Ok(shell::Session {
             shell_to_client_ctl,
             pager_ctl: Arc::new(Mutex::new(None)),
diff --git a/libshpool/src/daemon/ttl_reaper.rs b/libshpool/src/daemon/ttl_reaper.rs
index ad4da2e..7a4a9f1 100644
--- a/libshpool/src/daemon/ttl_reaper.rs
+++ b/libshpool/src/daemon/ttl_reaper.rs
@@ -14,8 +14,8 @@
 
 /*! The ttl reaper is responsible to reaping sessions which
   have a ttl set. It uses a channel for a mailbox to listen
-  for newly woken threads, adds a generation id to session
-  names to avoid clobbering fresh session with the same
+  for newly woken threads, remembers the exit notifier of each
+  session to avoid clobbering fresh session with the same
   session name as a previous session, and uses a min heap
   to schedule wakeups in order to reap threads on time.
 */
@@ -23,7 +23,7 @@
 use std::{
     cmp,
     collections::{BinaryHeap, HashMap},
-    sync::Arc,
+    sync::{Arc, Weak},
     time::Instant,
 };
 
@@ -31,32 +31,31 @@ use parking_lot::Mutex;
 use tracing::{info, span, warn, Level};
 
 use super::events;
+use super::exit_notify::ExitNotifier;
 use super::shell;
 
+/// A session to be reaped at the given time. The name might refer to a different
+/// session by then, so the session is identified by its exit notifier.
+pub type Registration = (String, Weak<ExitNotifier>, Instant);
+
 /// Run the reaper thread loop. Should be invoked in a dedicated
 /// thread.
 pub fn run(
-    new_sess: crossbeam_channel::Receiver<(String, Instant)>,
+    new_sess: crossbeam_channel::Receiver<Registration>,
     shells: Arc<Mutex<HashMap<String, Box<shell::Session>>>>,
     events_bus: Arc<events::EventBus>,
 ) -> anyhow::Result<()> {
     let _s = span!(Level::INFO, "ttl_reaper").entered();
 
     let mut heap = BinaryHeap::new();
-    let mut gen_ids = HashMap::new();
 
     loop {
         // empty heap loop, just waiting for new sessions to watch
         while heap.is_empty() {
             match new_sess.recv() {
-                Ok((session_name, reap_at)) => {
-                    let gen_id = gen_ids.entry(session_name.clone()).or_insert(0);
-                    *gen_id += 1;
-                    info!(
-                        "scheduling first sess {}:{} to be reaped at {:?}",
-                        &session_name, *gen_id, reap_at
-                    );
-                    heap.push(Reapable { session_name, gen_id: *gen_id, reap_at });
+                Ok((session_name, exit_notifier, reap_at)) => {
+                    info!("scheduling first sess {} to be reaped at {:?}", &session_name, reap_at);
+                    heap.push(Reapable { session_name, exit_notifier, reap_at });
                 }
                 Err(crossbeam_channel::RecvError) => {
                     info!("bailing due to RecvError in empty heap loop");
@@ -76,14 +75,12 @@ pub fn run(
             crossbeam_channel::select! {
                 recv(new_sess) -> new_sess_msg => {
                     match new_sess_msg {
-                        Ok((session_name, reap_at)) => {
-                            let gen_id = gen_ids.entry(session_name.clone()).or_insert(0);
-                            *gen_id += 1;
-                            info!("scheduling {}:{} to be reaped at {:?}",
-                                  &session_name, *gen_id, reap_at);
+                        Ok((session_name, exit_notifier, reap_at)) => {
+                            info!("scheduling {} to be reaped at {:?}",
+                                  &session_name, reap_at);
                             heap.push(Reapable {
                                 session_name,
-                                gen_id: *gen_id,
+                                exit_notifier,
                                 reap_at,
                             });
                         }
@@ -97,17 +94,15 @@ pub fn run(
                     let reapable = heap.pop()
                         .expect("there to be an entry in a non-empty heap");
                     info!("waking up to reap {:?}", reapable);
-                    let current_gen = gen_ids.get(&reapable.session_name)
-                        .copied().unwrap_or(0);
-                    if current_gen != reapable.gen_id {
-                        info!("ignoring {}:{} because current gen is {:?}",
-                              &reapable.session_name, reapable.gen_id, current_gen);
-                        continue;
-                    }
 
                     let _s = span!(Level::INFO, "lock(shells)").entered();
                     let mut shells = shells.lock();
                     if let Some(sess) = shells.get(&reapable.session_name) {
+                        if !reapable.is(sess) {
+                            info!("ignoring '{}' because it is a new session by now",
+                                  &reapable.session_name);
+                            continue;
+                        }
                         if let Err(e) = sess.kill() {
                             warn!("error trying to kill '{}': {:?}",
                                   reapable.session_name, e);
@@ -130,10 +125,17 @@ pub fn run(
 #[derive(Debug)]
 struct Reapable {
     session_name: String,
-    gen_id: usize,
+    exit_notifier: Weak<ExitNotifier>,
     reap_at: Instant,
 }
 
+impl Reapable {
+    /// Check if this is the session which was registered.
+    fn is(&self, sess: &shell::Session) -> bool {
+        Weak::ptr_eq(&self.exit_notifier, &Arc::downgrade(&sess.child_exit_notifier))
+    }
+}
+
 impl cmp::PartialEq for Reapable {
     fn eq(&self, rhs: &Reapable) -> bool {
         self.reap_at == rhs.reap_at
-- 
2.43.0


From c41040dc28955552f8d3d302c4e1f253f14e0832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:27 +0000
Subject: [PATCH 17/54] fix: pass on the exit status when the shell ends while
 a client is being attached

---
 libshpool/src/daemon/shell.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index 9863d61..47c8ff0 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -749,17 +749,25 @@ impl SessionInner {
         {
             let _s = span!(Level::INFO, "initial_attach_lock(shell_to_client_ctl)").entered();
             let shell_to_client_ctl = self.shell_to_client_ctl.lock();
-            shell_to_client_ctl
-                .client_connection
-                .send_timeout(
-                    ClientConnectionMsg::New(ClientConnection {
-                        sink: output_sink,
-                        size: init_tty_size,
-                        stream: shell_to_client_client_stream,
-                    }),
-                    SHELL_TO_CLIENT_CTL_TIMEOUT,
-                )
-                .context("attaching new client stream to shell->client thread")?;
+            let send_res = shell_to_client_ctl.client_connection.send_timeout(
+                ClientConnectionMsg::New(ClientConnection {
+                    sink: output_sink,
+                    size: init_tty_size,
+                    stream: shell_to_client_client_stream,
+                }),
+                SHELL_TO_CLIENT_CTL_TIMEOUT,
+            );
+            if let Err(crossbeam_channel::SendTimeoutError::Disconnected(_)) = send_res {
+                // The shell->client thread only goes away along with the shell, so the
+                // shell must have exited just before it could take over this client.
+                if let Some(exit_status) = child_exit_notifier.wait(Some(SHELL_EXIT_WAIT_DUR)) {
+                    info!("shell exited with status {} before it got the client", exit_status);
+                    Self::write_exit_chunk(&client_stream, exit_status);
+                    shutdown_socket(&client_stream, net::Shutdown::Both)?;
+                    return Ok(true);
+                }
+            }
+            send_res.context("attaching new client stream to shell->client thread")?;
             let status = shell_to_client_ctl
                 .client_connection_ack
                 .recv_timeout(SHELL_TO_CLIENT_CTL_TIMEOUT)
-- 
2.43.0


From ccfef6323cf75d0a82446f58b525049a708282b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:05 +0000
Subject: [PATCH 18/54] fix: do not send clients more variables than they can
 take at once

---
 libshpool/src/daemon/shell.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index 47c8ff0..10e582f 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -494,6 +494,11 @@ impl SessionInner {
                             error!("error encoding MaybeSwitch: {:?}", e);
                             continue;
                         }
+                        if encoded.len() > consts::BUF_SIZE {
+                            // the client could not take it and would have to give up
+                            error!("MaybeSwitch is too big to send ({} bytes)", encoded.len());
+                            continue;
+                        }
 
                         let chunk = Chunk { kind: ChunkKind::MaybeSwitch, buf: &encoded[..] };
                         match chunk.write_to(&mut conn.sink).and_then(|_| conn.sink.flush()) {
-- 
2.43.0


From 38a4a64aa7e8f3e3e4213e7e143b94d8aaf76be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:05 +0000
Subject: [PATCH 19/54] fix: tell every client of a changed variable even if
 one session can't be told

---
 libshpool/src/daemon/server.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 552ce13..dd01937 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -748,9 +748,12 @@ impl Server {
         }
         for ctl in ctls.into_iter() {
             let ctl = ctl.lock();
-            ctl.maybe_switch
-                .send_timeout(maybe_switch.clone(), SESSION_MSG_TIMEOUT)
-                .context("broadcasting maybe_switch")?;
+            // a session whose shell is gone or whose client is stuck is no reason
+            // not to tell the others
+            if let Err(e) = ctl.maybe_switch.send_timeout(maybe_switch.clone(), SESSION_MSG_TIMEOUT)
+            {
+                warn!("broadcasting maybe_switch: {:?}", e);
+            }
         }
 
         write_reply(&mut stream, ModifyVarReply {}).context("writing modify var reply")?;
-- 
2.43.0


From 878a4f1128e320bfd8cc8bcbd2ec5a953573bd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:08 +0000
Subject: [PATCH 20/54] fix: never tell a client of older variables after newer
 ones

---
 libshpool/src/daemon/server.rs | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index dd01937..6b6e1e8 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -706,16 +706,17 @@ impl Server {
         Ok(())
     }
 
+    fn current_vars(&self) -> MaybeSwitch {
+        let vars = self.vars.lock();
+        MaybeSwitch {
+            switch_to: None,
+            vars: vars.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
+        }
+    }
+
     #[instrument(skip_all)]
     fn handle_get_vars(&self, mut stream: UnixStream) -> anyhow::Result<()> {
-        let maybe_switch = {
-            let var_map = self.vars.lock();
-            let vars: Vec<(String, String)> =
-                var_map.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
-            shpool_protocol::MaybeSwitch { switch_to: None, vars }
-        };
-
-        write_reply(&mut stream, maybe_switch).context("writing maybe_switch reply")?;
+        write_reply(&mut stream, self.current_vars()).context("writing maybe_switch reply")?;
         Ok(())
     }
 
@@ -725,19 +726,14 @@ impl Server {
         mut stream: UnixStream,
         request: ModifyVarRequest,
     ) -> anyhow::Result<()> {
-        let maybe_switch = {
+        {
             let mut vars = self.vars.lock();
             if let Some(val) = request.val {
                 vars.insert(request.var, val);
             } else {
                 vars.remove(&request.var);
             }
-
-            MaybeSwitch {
-                switch_to: None,
-                vars: vars.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
-            }
-        };
+        }
 
         let mut ctls = Vec::new();
         {
@@ -748,10 +744,12 @@ impl Server {
         }
         for ctl in ctls.into_iter() {
             let ctl = ctl.lock();
+            // Taken while holding the lock so that nobody is told of an older
+            // state after a newer one.
+            let maybe_switch = self.current_vars();
             // a session whose shell is gone or whose client is stuck is no reason
             // not to tell the others
-            if let Err(e) = ctl.maybe_switch.send_timeout(maybe_switch.clone(), SESSION_MSG_TIMEOUT)
-            {
+            if let Err(e) = ctl.maybe_switch.send_timeout(maybe_switch, SESSION_MSG_TIMEOUT) {
                 warn!("broadcasting maybe_switch: {:?}", e);
             }
         }
-- 
2.43.0


From b56ef4e89171a4b2d363d25c070f9ac0d45638d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:02 +0000
Subject: [PATCH 21/54] fix: let go of a session before announcing that it is
 detached

---
 libshpool/src/daemon/server.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 6b6e1e8..852af3b 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -392,6 +392,9 @@ impl Server {
                     let shells = self.shells.lock();
                     if let Some(session) = shells.get(&header.name).filter(|s| is_ours(s)) {
                         session.lifecycle.record_detached();
+                        // `list` takes a session whose inner lock is held to be
+                        // attached, so let go of it before telling anyone.
+                        drop(inner);
                         self.events_bus.publish(&events::Event::SessionDetached);
                     }
                 }
-- 
2.43.0


From ad5d5af1f43ff9e9ffb18c0c5d45017a174dd961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:02 +0000
Subject: [PATCH 22/54] fix: give a new events subscriber every event published
 since it connected

---
 libshpool/src/daemon/events.rs | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/libshpool/src/daemon/events.rs b/libshpool/src/daemon/events.rs
index bf8e768..8b48301 100644
--- a/libshpool/src/daemon/events.rs
+++ b/libshpool/src/daemon/events.rs
@@ -296,19 +296,7 @@ impl Sink {
             // queued connections so the same iteration's broadcast reaches
             // them. The accept syscall is cheap (returns WouldBlock
             // immediately when the queue is empty).
-            loop {
-                match listener.accept() {
-                    Ok((stream, _addr)) => match SubscriberWriter::new(stream) {
-                        Ok(sub) => subs.push(sub),
-                        Err(e) => warn!("registering events subscriber: {:?}", e),
-                    },
-                    Err(e) if e.kind() == io::ErrorKind::WouldBlock => break,
-                    Err(e) => {
-                        error!("events listener accept: {:?}", e);
-                        break;
-                    }
-                }
-            }
+            accept_pending(&listener, &mut subs);
 
             // POLLHUP on wake_rx fires when the bus is dropped (write end
             // closes); falling through without entering the drain branch
@@ -335,6 +323,9 @@ impl Sink {
                 // would overflow even healthy subs because broadcast enqueues
                 // every event before any drive runs.
                 while let Ok(line) = event_rx.try_recv() {
+                    // A connection made since the accept above may be older
+                    // than this event, in which case it is owed it.
+                    accept_pending(&listener, &mut subs);
                     for sub in subs.iter_mut() {
                         if sub.dropped {
                             continue;
@@ -383,6 +374,23 @@ impl Sink {
     }
 }
 
+/// Register everyone who is waiting to be accepted as a subscriber.
+fn accept_pending(listener: &UnixListener, subs: &mut Vec<SubscriberWriter>) {
+    loop {
+        match listener.accept() {
+            Ok((stream, _addr)) => match SubscriberWriter::new(stream) {
+                Ok(sub) => subs.push(sub),
+                Err(e) => warn!("registering events subscriber: {:?}", e),
+            },
+            Err(e) if e.kind() == io::ErrorKind::WouldBlock => break,
+            Err(e) => {
+                error!("events listener accept: {:?}", e);
+                break;
+            }
+        }
+    }
+}
+
 /// Per-subscriber state owned by the sink. Exposes an event-shaped surface
 /// (`enqueue`, `drive`, `wants_pollout`); the partial-write state machine
 /// (offset into `pending.front()`) is hidden from the sink loop.
-- 
2.43.0


From 9592421a45afa479d1847d774ceb80571b49f70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:11 +0000
Subject: [PATCH 23/54] fix: cope with ttys of no size and of the largest size

A tty which nobody told its size says that it has 0 rows and 0 columns,
which made the terminal engines panic, and growing a tty of 65535 rows or
columns by one to trigger a redraw overflowed. Either killed the
shell->client thread and with it the session.
---
 libshpool/src/daemon/shell.rs    |  4 ++--
 libshpool/src/session_restore.rs | 19 ++++++++++++-------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index 10e582f..125d3ce 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -356,8 +356,8 @@ impl SessionInner {
                                 // can "bake" for a little bit, which emacs seems
                                 // to require in order to pick up the jiggle.
                                 let oversize = TtySize {
-                                    rows: conn.size.rows + 1,
-                                    cols: conn.size.cols + 1,
+                                    rows: conn.size.rows.saturating_add(1),
+                                    cols: conn.size.cols.saturating_add(1),
                                     xpixel: conn.size.xpixel,
                                     ypixel: conn.size.ypixel,
                                 };
diff --git a/libshpool/src/session_restore.rs b/libshpool/src/session_restore.rs
index 01a3c9d..6893c68 100644
--- a/libshpool/src/session_restore.rs
+++ b/libshpool/src/session_restore.rs
@@ -80,7 +80,7 @@ pub struct Vt100Screen {
 
 impl SessionSpool for Vt100Screen {
     fn resize(&mut self, size: TtySize) {
-        self.parser.screen_mut().set_size(size.rows, self.config.vterm_width());
+        self.parser.screen_mut().set_size(size.rows.max(1), self.config.vterm_width());
     }
 
     fn restore_buffer(&self) -> Vec<u8> {
@@ -113,7 +113,7 @@ pub struct Vt100Lines {
 
 impl SessionSpool for Vt100Lines {
     fn resize(&mut self, size: TtySize) {
-        self.parser.screen_mut().set_size(size.rows, self.config.vterm_width());
+        self.parser.screen_mut().set_size(size.rows.max(1), self.config.vterm_width());
     }
 
     fn restore_buffer(&self) -> Vec<u8> {
@@ -140,8 +140,10 @@ pub struct Vterm {
 
 impl SessionSpool for Vterm {
     fn resize(&mut self, size: TtySize) {
-        self.term
-            .resize(shpool_vterm::Size { height: size.rows as usize, width: size.cols as usize });
+        self.term.resize(shpool_vterm::Size {
+            height: size.rows.max(1) as usize,
+            width: size.cols.max(1) as usize,
+        });
     }
 
     fn restore_buffer(&self) -> Vec<u8> {
@@ -168,21 +170,24 @@ pub fn new(
     let restore_engine = config.get().session_restore_engine.clone().unwrap_or_default();
     let mode = config.get().session_restore_mode.clone().unwrap_or_default();
     let vterm_width = config.vterm_width();
+    // A tty which has never been told its size claims to have no rows and no
+    // columns, but the terminal engines need some.
+    let (rows, cols) = (size.rows.max(1), size.cols.max(1));
     match (mode, restore_engine) {
         (SessionRestoreMode::Simple, _) => Box::new(NullSpool),
         (SessionRestoreMode::Screen, SessionRestoreEngine::Vt100) => Box::new(Vt100Screen {
-            parser: shpool_vt100::Parser::new(size.rows, vterm_width, scrollback_lines),
+            parser: shpool_vt100::Parser::new(rows, vterm_width, scrollback_lines),
             config,
         }),
         (SessionRestoreMode::Lines(nlines), SessionRestoreEngine::Vt100) => Box::new(Vt100Lines {
-            parser: shpool_vt100::Parser::new(size.rows, vterm_width, scrollback_lines),
+            parser: shpool_vt100::Parser::new(rows, vterm_width, scrollback_lines),
             nlines,
             config,
         }),
         (mode, SessionRestoreEngine::Vterm) => Box::new(Vterm {
             term: shpool_vterm::Term::new(
                 scrollback_lines,
-                shpool_vterm::Size { width: size.cols as usize, height: size.rows as usize },
+                shpool_vterm::Size { width: cols as usize, height: rows as usize },
             ),
             mode,
         }),
-- 
2.43.0


From df98dfae8c4acacfafbd97d59606f8a158cc3e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:05 +0000
Subject: [PATCH 24/54] fix: honour a resize which comes before the client is
 handed over

Until bidi_stream had handed the client over to the shell->client thread a
resize was either not answered at all (new session: the thread waits for its
first client while the resize holds the control lock) or overridden by the size
in the attach header.
---
 libshpool/src/daemon/server.rs | 43 ++++++++++++++++++++--------------
 libshpool/src/daemon/shell.rs  | 16 +++++++++++--
 2 files changed, 40 insertions(+), 19 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 852af3b..d87a56c 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -299,6 +299,10 @@ impl Server {
                 Arc::ptr_eq(&session.child_exit_notifier, &own_exit_notifier)
             };
 
+            // From now on the client may tell us that its tty changed size, which the
+            // shell->client thread can't take note of yet.
+            inner.shell_to_client_ctl.lock().pending_client = Some(Default::default());
+
             let mut child_done = false;
             let client_stream = match inner.client_stream.as_mut() {
                 Some(s) => s,
@@ -862,41 +866,45 @@ impl Server {
     ) -> anyhow::Result<SessionMessageReply> {
         match header.payload {
             SessionMessageRequestPayload::Resize(resize_request) => {
-                let pager_ctl = {
-                    let _s = span!(Level::INFO, "resize_lock_1(shells)").entered();
+                let (pager_ctl, shell_to_client_ctl) = {
+                    let _s = span!(Level::INFO, "resize_lock(shells)").entered();
                     let shells = self.shells.lock();
                     if let Some(session) = shells.get(&header.session_name) {
-                        Arc::clone(&session.pager_ctl)
+                        (
+                            Arc::clone(&session.pager_ctl),
+                            Arc::clone(&session.shell_to_client_ctl),
+                        )
                     } else {
                         return Ok(SessionMessageReply::NotFound);
                     }
                 };
                 let _s = span!(Level::INFO, "lock(pager_ctl)").entered();
                 let pager_ctl = pager_ctl.lock();
+                let _s = span!(Level::INFO, "lock(shell_to_client_ctl)").entered();
+                let mut shell_to_client_ctl = shell_to_client_ctl.lock();
+
+                // A client which is still attaching gets handed over to the
+                // shell->client thread with its latest size.
+                let is_pending = match shell_to_client_ctl.pending_client.as_mut() {
+                    Some(pending_client) => {
+                        pending_client.tty_size = Some(resize_request.tty_size.clone());
+                        true
+                    }
+                    None => false,
+                };
 
                 if let Some(pager_ctl) = pager_ctl.as_ref() {
                     info!("resizing pager");
+                    drop(shell_to_client_ctl);
                     pager_ctl
                         .tty_size_change
-                        .send_timeout(resize_request.tty_size.clone(), SESSION_MSG_TIMEOUT)
+                        .send_timeout(resize_request.tty_size, SESSION_MSG_TIMEOUT)
                         .context("sending tty size change to pager")?;
                     pager_ctl
                         .tty_size_change_ack
                         .recv_timeout(SESSION_MSG_TIMEOUT)
                         .context("recving tty size change ack from pager")?;
-                } else {
-                    let shell_to_client_ctl = {
-                        let _s = span!(Level::INFO, "resize_lock_2(shells)").entered();
-                        let shells = self.shells.lock();
-                        if let Some(session) = shells.get(&header.session_name) {
-                            Arc::clone(&session.shell_to_client_ctl)
-                        } else {
-                            return Ok(SessionMessageReply::NotFound);
-                        }
-                    };
-                    let _s = span!(Level::INFO, "lock(shell_to_client_ctl)").entered();
-                    let shell_to_client_ctl = shell_to_client_ctl.lock();
-
+                } else if !is_pending {
                     match shell_to_client_ctl
                         .tty_size_change
                         .send_timeout(resize_request.tty_size, SESSION_MSG_TIMEOUT)
@@ -1157,6 +1165,7 @@ impl Server {
         let shell_to_client_ctl = Arc::new(Mutex::new(shell::ShellToClientCtl {
             client_connection: client_connection_tx,
             client_connection_ack: client_connection_ack_rx,
+            pending_client: None,
             tty_size_change: tty_size_change_tx,
             tty_size_change_ack: tty_size_change_ack_rx,
             heartbeat: heartbeat_tx,
diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index 125d3ce..88c44cc 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -753,11 +753,12 @@ impl SessionInner {
 
         {
             let _s = span!(Level::INFO, "initial_attach_lock(shell_to_client_ctl)").entered();
-            let shell_to_client_ctl = self.shell_to_client_ctl.lock();
+            let mut shell_to_client_ctl = self.shell_to_client_ctl.lock();
+            let new_tty_size = shell_to_client_ctl.pending_client.take().and_then(|c| c.tty_size);
             let send_res = shell_to_client_ctl.client_connection.send_timeout(
                 ClientConnectionMsg::New(ClientConnection {
                     sink: output_sink,
-                    size: init_tty_size,
+                    size: new_tty_size.unwrap_or(init_tty_size),
                     stream: shell_to_client_client_stream,
                 }),
                 SHELL_TO_CLIENT_CTL_TIMEOUT,
@@ -1193,6 +1194,10 @@ pub struct ShellToClientCtl {
     /// fresh client connection.
     pub client_connection_ack: crossbeam_channel::Receiver<ClientConnectionStatus>,
 
+    /// Set from when a client is told that it is attached until it has been handed
+    /// over to the shell->client thread.
+    pub pending_client: Option<PendingClient>,
+
     /// A control channel for the shell->client thread. Used to signal size
     /// changes so that the output spool will correctly reflect the size of
     /// the user's tty.
@@ -1215,6 +1220,13 @@ pub struct ShellToClientCtl {
     pub maybe_switch: crossbeam_channel::Sender<MaybeSwitch>,
 }
 
+/// A client which is about to be handed over to the shell->client thread.
+#[derive(Debug, Default)]
+pub struct PendingClient {
+    /// The size the client's tty was changed to in the meantime.
+    pub tty_size: Option<TtySize>,
+}
+
 impl ShellToClientCtl {
     /// Make the shell->client thread let go of its client.
     pub fn disconnect(&self, timeout: time::Duration) -> anyhow::Result<ClientConnectionStatus> {
-- 
2.43.0


From 74216385d9880993ae14f0bb5e63cffc4a0d9457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:05 +0000
Subject: [PATCH 25/54] fix: tell the daemon of a tty resized while attaching

The handler of SIGWINCH resizes the session by name, so a resize between
reading the tty size for the attach header and the daemon having the session
attached to us got lost: there was no such session yet.
---
 libshpool/src/attach.rs | 44 ++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/libshpool/src/attach.rs b/libshpool/src/attach.rs
index 6693e6a..aa2f1d0 100644
--- a/libshpool/src/attach.rs
+++ b/libshpool/src/attach.rs
@@ -22,7 +22,7 @@ use std::{
 };
 
 use anyhow::{anyhow, bail, Context};
-use nix::unistd;
+use nix::{sys::signal, unistd};
 use shpool_protocol::{
     AttachHeader, AttachReplyHeader, ConnectHeader, DetachReply, DetachRequest, MaybeSwitch,
     ResizeReply, ResizeRequest, SessionMessageReply, SessionMessageRequest,
@@ -157,9 +157,9 @@ impl Attach {
 
         let mut detached = false;
         let mut tries = 0;
-        let attach_client = loop {
+        let (attach_client, tty_size) = loop {
             match self.dial_attach(&resolved) {
-                Ok(client) => break client,
+                Ok(attached) => break attached,
                 Err(err) => match err.downcast() {
                     Ok(BusyError) if !self.force => {
                         eprintln!(
@@ -226,6 +226,15 @@ impl Attach {
             return Ok(AttachResult::Done);
         }
 
+        // If our tty was resized before the daemon had the session attached to us there
+        // was nobody to tell, so have the signal handler take another look.
+        let TtySize { rows, cols, xpixel, ypixel } = local_tty_size();
+        if (rows, cols, xpixel, ypixel)
+            != (tty_size.rows, tty_size.cols, tty_size.xpixel, tty_size.ypixel)
+        {
+            signal::raise(signal::Signal::SIGWINCH).context("raising SIGWINCH")?;
+        }
+
         info!("entering bidi streaming mode");
         let session_name_tmpl = self.tmpls.session_name.clone();
         match attach_client.pipe_bytes(move |maybe_switch: &MaybeSwitch| {
@@ -239,17 +248,14 @@ impl Attach {
     }
 
     /// Attach to a session and return the connected client without piping
-    /// stdio.
-    fn dial_attach(&self, resolved: &ResolvedTemplates) -> anyhow::Result<protocol::Client> {
+    /// stdio, along with the tty size the daemon was told.
+    fn dial_attach(
+        &self,
+        resolved: &ResolvedTemplates,
+    ) -> anyhow::Result<(protocol::Client, TtySize)> {
         let mut client = self.dial_client(true)?;
 
-        let tty_size = match TtySize::from_fd(0) {
-            Ok(s) => s,
-            Err(e) => {
-                warn!("stdin is not a tty, using default size (err: {e:?})");
-                TtySize { rows: 24, cols: 80, xpixel: 0, ypixel: 0 }
-            }
-        };
+        let tty_size = local_tty_size();
 
         let forward_env = self.config_manager.get().forward_env.clone();
         let mut local_env_keys = vec!["TERM", "DISPLAY", "LANG", "SSH_AUTH_SOCK"];
@@ -274,7 +280,7 @@ impl Attach {
         client
             .write_connect_header(ConnectHeader::Attach(AttachHeader {
                 name: resolved.session_name.clone(),
-                local_tty_size: tty_size,
+                local_tty_size: tty_size.clone(),
                 local_env: local_env_keys
                     .into_iter()
                     .filter_map(|var| {
@@ -325,7 +331,7 @@ impl Attach {
             }
         }
 
-        Ok(client)
+        Ok((client, tty_size))
     }
 
     // Dial the daemon. If silent is true, don't attempt to warn the user.
@@ -409,6 +415,16 @@ impl fmt::Display for BusyError {
 }
 impl std::error::Error for BusyError {}
 
+fn local_tty_size() -> TtySize {
+    match TtySize::from_fd(0) {
+        Ok(s) => s,
+        Err(e) => {
+            warn!("stdin is not a tty, using default size (err: {e:?})");
+            TtySize { rows: 24, cols: 80, xpixel: 0, ypixel: 0 }
+        }
+    }
+}
+
 enum AttachResult {
     Done,
     Switch(MaybeSwitch),
-- 
2.43.0


From 6ee4c405ccbf5c2c559a5af3989928131eeb1abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:54 +0000
Subject: [PATCH 26/54] fix: cut off a client which has stopped reading when
 detaching it

The shell->client thread is blocked writing to such a client, so detach requests
timed out without a reply and attach --force failed, just when they are needed
most. Also, a session whose shell exited while its client was stuck could stay in
the session table.
---
 libshpool/src/daemon/server.rs |  3 +-
 libshpool/src/daemon/shell.rs  | 92 ++++++++++++++++++++++++++--------
 2 files changed, 73 insertions(+), 22 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index d87a56c..1ba06a0 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -25,7 +25,7 @@ use std::{
     },
     path::{Path, PathBuf},
     process,
-    sync::Arc,
+    sync::{Arc, Weak},
     thread, time,
     time::{Duration, Instant},
 };
@@ -1165,6 +1165,7 @@ impl Server {
         let shell_to_client_ctl = Arc::new(Mutex::new(shell::ShellToClientCtl {
             client_connection: client_connection_tx,
             client_connection_ack: client_connection_ack_rx,
+            client_stream: Weak::new(),
             pending_client: None,
             tty_size_change: tty_size_change_tx,
             tty_size_change_ack: tty_size_change_ack_rx,
diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index 88c44cc..4fb039f 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -20,7 +20,7 @@ use std::{
     os::unix::net::UnixStream,
     sync::{
         atomic::{AtomicBool, Ordering},
-        Arc,
+        Arc, Weak,
     },
     thread, time,
     time::Duration,
@@ -740,7 +740,7 @@ impl SessionInner {
         // we take the client stream so that it gets closed when this routine
         // returns
         let client_stream = match self.client_stream.take() {
-            Some(s) => s,
+            Some(s) => Arc::new(s),
             None => return Err(anyhow!("no client stream to take for bidi streaming")),
         };
 
@@ -768,7 +768,7 @@ impl SessionInner {
                 // shell must have exited just before it could take over this client.
                 if let Some(exit_status) = child_exit_notifier.wait(Some(SHELL_EXIT_WAIT_DUR)) {
                     info!("shell exited with status {} before it got the client", exit_status);
-                    Self::write_exit_chunk(&client_stream, exit_status);
+                    Self::write_exit_chunk(&*client_stream, exit_status);
                     shutdown_socket(&client_stream, net::Shutdown::Both)?;
                     return Ok(true);
                 }
@@ -779,6 +779,7 @@ impl SessionInner {
                 .recv_timeout(SHELL_TO_CLIENT_CTL_TIMEOUT)
                 .context("waiting for client connection ack (1)")?;
             info!("client connection status={:?}", status);
+            shell_to_client_ctl.client_stream = Arc::downgrade(&client_stream);
         }
 
         let pty_master =
@@ -789,7 +790,7 @@ impl SessionInner {
         // A flag to indicate if the child shell has exited
         let child_done = AtomicBool::new(false);
 
-        thread::scope(|s| -> anyhow::Result<()> {
+        let scope_res = thread::scope(|s| -> anyhow::Result<()> {
             // Spawn the main data transport threads
             let client_to_shell_h = self.spawn_client_to_shell(
                 s, conn_id, &stop, &pty_master, &mut client_to_shell_client_stream)?;
@@ -829,7 +830,7 @@ impl SessionInner {
             {
                 let _s = span!(Level::INFO, "disconnect_lock(shell_to_client_ctl)").entered();
                 let shell_to_client_ctl = self.shell_to_client_ctl.lock();
-                let send_res = shell_to_client_ctl.client_connection.send_timeout(if c_done {
+                let msg = if c_done {
                     let exit_status = child_exit_notifier
                         .wait(Some(Duration::from_secs(0)))
                         .unwrap_or(1);
@@ -838,18 +839,18 @@ impl SessionInner {
                 } else {
                     info!("telling shell->client to disconnect without reaping");
                     ClientConnectionMsg::Disconnect
-                }, SHELL_TO_CLIENT_CTL_TIMEOUT);
-
-                if let Err(send_timeout_err) = send_res {
-                    info!("failed to tell shell->client to disconnect: {:?}", send_timeout_err);
+                };
+                match shell_to_client_ctl.send_connection_msg(msg, SHELL_TO_CLIENT_CTL_TIMEOUT) {
+                    Ok(ClientConnectionStatus::DetachNone) | Err(_) => {
+                        info!("shell->client did not disconnect the client");
 
-                    // the shell->client didn't close the client stream for us, so we'll need
-                    // to handle that ourselves
-                    shutdown_socket(&client_stream, net::Shutdown::Both)?;
-                } else {
-                    let status = shell_to_client_ctl.client_connection_ack.recv_timeout(SHELL_TO_CLIENT_CTL_TIMEOUT)
-                        .context("waiting for client connection ack (2)")?;
-                    info!("detached from shell->client, status = {:?}", status);
+                        // the shell->client didn't close the client stream for us, so we'll need
+                        // to handle that ourselves
+                        shutdown_socket(&client_stream, net::Shutdown::Both)?;
+                    }
+                    Ok(status) => {
+                        info!("detached from shell->client, status = {:?}", status);
+                    }
                 }
             }
 
@@ -874,10 +875,14 @@ impl SessionInner {
             debug!("joined all threads");
 
             Ok(())
-        }).context("outer thread scope")?;
+        }).context("outer thread scope");
 
         let c_done = child_done.load(Ordering::Acquire);
-        if c_done {
+        if !c_done {
+            scope_res?;
+        } else {
+            // whatever went wrong, our caller needs to know that the shell is gone
+            let _ = log_if_error("outer thread scope", scope_res);
             shutdown_socket(&client_stream, std::net::Shutdown::Both)
                 .context("shutting down client stream")?;
         }
@@ -1194,6 +1199,10 @@ pub struct ShellToClientCtl {
     /// fresh client connection.
     pub client_connection_ack: crossbeam_channel::Receiver<ClientConnectionStatus>,
 
+    /// The stream of the client which has been handed over to the shell->client
+    /// thread, if it is still attached.
+    pub client_stream: Weak<UnixStream>,
+
     /// Set from when a client is told that it is attached until it has been handed
     /// over to the shell->client thread.
     pub pending_client: Option<PendingClient>,
@@ -1230,17 +1239,58 @@ pub struct PendingClient {
 impl ShellToClientCtl {
     /// Make the shell->client thread let go of its client.
     pub fn disconnect(&self, timeout: time::Duration) -> anyhow::Result<ClientConnectionStatus> {
-        match self.client_connection.send_timeout(ClientConnectionMsg::Disconnect, timeout) {
+        self.send_connection_msg(ClientConnectionMsg::Disconnect, timeout)
+    }
+
+    /// Send a message to the shell->client thread and wait for its answer.
+    ///
+    /// The thread can't listen to us while it is writing to a client which has stopped
+    /// reading, so such a client gets cut off.
+    fn send_connection_msg(
+        &self,
+        msg: ClientConnectionMsg,
+        timeout: time::Duration,
+    ) -> anyhow::Result<ClientConnectionStatus> {
+        use crossbeam_channel::{RecvTimeoutError, SendTimeoutError};
+
+        let mut did_cut_off = false;
+        let mut send_res = self.client_connection.send_timeout(msg, timeout);
+        if let Err(SendTimeoutError::Timeout(msg)) = send_res {
+            did_cut_off = self.cut_off_client();
+            send_res = self.client_connection.send_timeout(msg, timeout);
+        }
+        match send_res {
             Ok(()) => {}
             // The thread exits along with the shell, so there is no client any more.
-            Err(crossbeam_channel::SendTimeoutError::Disconnected(_)) => {
+            Err(SendTimeoutError::Disconnected(_)) => {
                 return Ok(ClientConnectionStatus::DetachNone)
             }
             Err(e) => {
                 return Err(anyhow!("{}", e)).context("sending client detach to shell->client")
             }
         }
-        self.client_connection_ack.recv_timeout(timeout).context("getting client conn ack")
+
+        let mut ack_res = self.client_connection_ack.recv_timeout(timeout);
+        if let Err(RecvTimeoutError::Timeout) = ack_res {
+            did_cut_off |= self.cut_off_client();
+            ack_res = self.client_connection_ack.recv_timeout(timeout);
+        }
+        let status = ack_res.context("getting client conn ack")?;
+        Ok(if did_cut_off { ClientConnectionStatus::Detached } else { status })
+    }
+
+    /// Shut down the stream of the attached client. Returns true if there was one.
+    fn cut_off_client(&self) -> bool {
+        match self.client_stream.upgrade() {
+            Some(stream) => {
+                info!("cutting off a client which has stopped reading");
+                if let Err(e) = shutdown_socket(&stream, net::Shutdown::Both) {
+                    warn!("cutting off client: {:?}", e);
+                }
+                true
+            }
+            None => false,
+        }
     }
 }
 
-- 
2.43.0


From ddd7b05c44f89819a0bc63cb4e0da96ab0139738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:54 +0000
Subject: [PATCH 27/54] fix: let go of the client of a shell which does not
 read its input

The client->shell thread blocked in write(2), so the session stayed busy after its
client had left or detached, and in the session table after its shell had exited.
---
 libshpool/src/daemon/shell.rs | 42 ++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index 4fb039f..2412c66 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -58,6 +58,9 @@ const REATTACH_RESIZE_DELAY: time::Duration = time::Duration::from_millis(50);
 // The shell->client thread should poll frequently so detach/reattach control
 // messages are noticed quickly without spinning the CPU.
 const SHELL_TO_CLIENT_POLL_MS: u16 = 50;
+const CLIENT_TO_SHELL_POLL_MS: u16 = 50;
+// A pty master which polls as writable takes this much without blocking.
+const CLIENT_TO_SHELL_WRITE_MAX: usize = 1024;
 
 // The most output we will still forward to the client once the shell has
 // exited. A terminal does not buffer more than this, but background jobs might
@@ -971,8 +974,8 @@ impl SessionInner {
                                     partial_keybinding.len(),
                                     i
                                 );
-                                master_writer
-                                    .write_all(&partial_keybinding)
+                                Self::write_to_shell(
+                                    &mut master_writer, &partial_keybinding, stop)
                                     .context("writing partial keybinding")?;
                                 if i > 0 {
                                     // snip the leading part of the input chunk that
@@ -1036,7 +1039,8 @@ impl SessionInner {
                     }
                     len = snip_buf(&mut buf[..], len, &snip_sections[..], &mut keep_sections);
 
-                    master_writer.write_all(&buf[0..len]).context("writing client chunk")?;
+                    Self::write_to_shell(&mut master_writer, &buf[0..len], stop)
+                        .context("writing client chunk")?;
 
                     master_writer.flush().context("flushing input from client to shell")?;
 
@@ -1052,6 +1056,38 @@ impl SessionInner {
             .map_err(|e| anyhow!("{:?}", e))
     }
 
+    /// Write to the pty master without ever blocking for good: if the shell does not read
+    /// what is typed, we must still be able to let go of the client. What has not been
+    /// written by the time we are told to stop is dropped.
+    fn write_to_shell(
+        pty_master: &mut shpool_pty::fork::Master,
+        mut data: &[u8],
+        stop: &AtomicBool,
+    ) -> anyhow::Result<()> {
+        let watchable_master = pty_master.clone();
+        let mut poll_fds = [poll::PollFd::new(watchable_master.borrow_fd(), PollFlags::POLLOUT)];
+        while !data.is_empty() {
+            if stop.load(Ordering::Relaxed) {
+                warn!("dropping {} bytes the shell did not read", data.len());
+                return Ok(());
+            }
+            match poll::poll(&mut poll_fds, CLIENT_TO_SHELL_POLL_MS) {
+                Err(nix::errno::Errno::EINTR) => continue,
+                res => res.context("polling pty master")?,
+            };
+            let revents = poll_fds[0].revents().unwrap_or(PollFlags::empty());
+            if revents.contains(PollFlags::POLLOUT) {
+                let len = std::cmp::min(data.len(), CLIENT_TO_SHELL_WRITE_MAX);
+                let written = pty_master.write(&data[..len])?;
+                data = &data[written..];
+            } else if !revents.is_empty() {
+                // The shell has hung up, so we are about to be told to stop.
+                thread::sleep(consts::JOIN_POLL_DURATION);
+            }
+        }
+        Ok(())
+    }
+
     #[instrument(skip_all)]
     fn spawn_heartbeat<'scope>(
         &'scope self,
-- 
2.43.0


From 0bc5be508929cc92fdae64b0dfa7b491cb1db622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:36 +0000
Subject: [PATCH 28/54] fix: close the daemon's file descriptors in new shells

SysconfVar::OPEN_MAX is the name of the limit, not the limit, so only one
descriptor got closed. Every shell inherited the pty masters of all
sessions created before it.
---
 libshpool/src/daemon/server.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 1ba06a0..4f0a74c 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -18,6 +18,7 @@ use std::{
     ffi::OsString,
     fs, io, net,
     os,
+    os::fd::RawFd,
     os::unix::{
         fs::PermissionsExt as _,
         net::{UnixListener, UnixStream},
@@ -55,6 +56,8 @@ use crate::{
 
 const DEFAULT_INITIAL_SHELL_PATH: &str = "/usr/bin:/bin:/usr/sbin:/sbin";
 const DEFAULT_OUTPUT_SPOOL_LINES: usize = 500;
+// How many file descriptors to close in a new shell if the limit is unknown.
+const DEFAULT_OPEN_MAX: i32 = 1024;
 const DEFAULT_PROMPT_PREFIX: &str = "shpool:$SHPOOL_SESSION_NAME ";
 
 // Half a second should be more than enough time to handle any resize or
@@ -1051,6 +1054,10 @@ impl Server {
             cmd.arg0(format!("-{shell_basename}"));
         };
 
+        let open_max = unistd::sysconf(unistd::SysconfVar::OPEN_MAX)
+            .context("getting the maximum number of open files")?
+            .and_then(|n| i32::try_from(n).ok())
+            .unwrap_or(DEFAULT_OPEN_MAX);
         let noecho = self.config.get().noecho.unwrap_or(false);
         info!("about to fork subshell noecho={}", noecho);
         let mut fork = shpool_pty::fork::Fork::from_ptmx().context("forking pty")?;
@@ -1058,9 +1065,8 @@ impl Server {
             if noecho {
                 tty::disable_echo(slave.borrow_fd()).context("disabling echo on pty")?;
             }
-            for fd in consts::STDERR_FD + 1..(nix::unistd::SysconfVar::OPEN_MAX as i32) {
-                let _ = nix::unistd::close(fd);
-            }
+            // The pty masters of all sessions are inherited on exec, so close them here.
+            close_fds_from(consts::STDERR_FD + 1, open_max);
             let err = cmd.exec();
             eprintln!("shell exec err: {err:?}");
             std::process::exit(1);
@@ -1370,6 +1376,21 @@ fn does_not_support_sentinels(shell: &str) -> bool {
     shell.ends_with("nu")
 }
 
+/// Close all file descriptors from `first` on. This must not allocate, since
+/// we call it between fork and exec.
+fn close_fds_from(first: RawFd, open_max: RawFd) {
+    // The limit might be huge, so only go through all fds if there is no other way.
+    #[cfg(target_os = "linux")]
+    // Safety: pure ffi, nobody uses these fds any more.
+    if unsafe { libc::syscall(libc::SYS_close_range, first, libc::c_uint::MAX, 0) } == 0 {
+        return;
+    }
+
+    for fd in first..open_max {
+        let _ = nix::unistd::close(fd);
+    }
+}
+
 #[instrument(skip_all)]
 fn parse_connect_header(stream: &mut UnixStream) -> anyhow::Result<ConnectHeader> {
     let header: ConnectHeader = protocol::decode_from(stream).context("parsing header")?;
-- 
2.43.0


From dc67c1378907d6ee79a96b52a44a8bd76f90f01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:51 +0000
Subject: [PATCH 29/54] fix: show the output of a shell whose set-up failed

If the shell took too long to start, the prompt sentinel was never asked
for, but the shell->client thread went on to wait for it and threw away
all output of the session.
---
 libshpool/src/daemon/server.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 4f0a74c..3cc2328 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -1129,7 +1129,7 @@ impl Server {
 
         let prompt_prefix_is_blank =
             self.config.get().prompt_prefix.as_ref().map(|p| p.is_empty()).unwrap_or(false);
-        let supports_sentinels = header.cmd.is_none()
+        let mut supports_sentinels = header.cmd.is_none()
             && (header.start_cmd.as_ref().map(|c| !c.is_empty()).unwrap_or(false)
                 || !prompt_prefix_is_blank)
             && !does_not_support_sentinels(&shell);
@@ -1153,6 +1153,8 @@ impl Server {
                 &header.name,
             ) {
                 warn!("issue injecting prefix: {:?}", err);
+                // nobody is going to print the sentinel which ends the set-up
+                supports_sentinels = false;
             }
         }
 
-- 
2.43.0


From 9c027a11b03366f8264e39760646bf5f92744f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:34 +0000
Subject: [PATCH 30/54] fix: pass on the last output of a shell which ends
 right after its set-up

The output still to be read when the shell exited was thrown away if the
prompt sentinel was part of it.
---
 libshpool/src/daemon/shell.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index 2412c66..827b6a3 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -408,12 +408,15 @@ impl SessionInner {
                                     info!("disconnectexit({}), shutting down client stream",
                                            exit_status);
 
-                                    if has_seen_prompt_sentinel {
-                                        if let Err(e) = Self::forward_remaining_output(
-                                            &mut pty_master, &mut poll_fds,
-                                            &mut old_conn, &mut buf) {
-                                            warn!("forwarding remaining output: {:?}", e);
-                                        }
+                                    let scanner = if has_seen_prompt_sentinel {
+                                        None
+                                    } else {
+                                        Some(&mut prompt_sentinel_scanner)
+                                    };
+                                    if let Err(e) = Self::forward_remaining_output(
+                                        &mut pty_master, &mut poll_fds,
+                                        &mut old_conn, &mut buf, scanner) {
+                                        warn!("forwarding remaining output: {:?}", e);
                                     }
 
                                     // write an exit status frame so the attach process
@@ -677,12 +680,14 @@ impl SessionInner {
     }
 
     /// Once the shell has exited, pass on whatever it still had written to its
-    /// terminal.
+    /// terminal, or only what follows the prompt sentinel if there is a scanner
+    /// which is still to find it.
     fn forward_remaining_output(
         pty_master: &mut shpool_pty::fork::Master,
         poll_fds: &mut [poll::PollFd],
         conn: &mut ClientConnection,
         buf: &mut [u8],
+        mut scanner: Option<&mut shell_inject::SentinelScanner>,
     ) -> anyhow::Result<()> {
         // a client which has stopped reading must not hold us up
         conn.stream
@@ -699,12 +704,20 @@ impl SessionInner {
             if len == 0 {
                 break;
             }
-            let chunk = Chunk { kind: ChunkKind::Data, buf: &buf[..len] };
+            forwarded += len;
+            let mut data = &buf[..len];
+            if let Some(s) = scanner.as_mut() {
+                match data.iter().position(|byte| s.transition(*byte)) {
+                    Some(i) => data = &data[i + 1..],
+                    None => continue,
+                }
+                scanner = None;
+            }
+            let chunk = Chunk { kind: ChunkKind::Data, buf: data };
             chunk
                 .write_to(&mut conn.sink)
                 .and_then(|_| conn.sink.flush())
                 .context("writing data chunk")?;
-            forwarded += len;
         }
 
         Ok(())
-- 
2.43.0


From fd88690ad4a1cae69f57aed0f6e8b9664a11671d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:43 +0000
Subject: [PATCH 31/54] fix: dump long messages of the day

The message was sent as one chunk whatever its size, but a client gives up
on chunks of more than 16 KiB. Also don't panic the shell->client thread if
the motd setting changes between the creation of a session and its first
prompt.
---
 libshpool/src/daemon/show_motd.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/libshpool/src/daemon/show_motd.rs b/libshpool/src/daemon/show_motd.rs
index 750f111..2bfe68d 100644
--- a/libshpool/src/daemon/show_motd.rs
+++ b/libshpool/src/daemon/show_motd.rs
@@ -20,7 +20,7 @@ use shpool_protocol::{Chunk, ChunkKind, TtySize};
 use tracing::{info, instrument};
 
 use crate::{
-    config,
+    config, consts,
     daemon::pager::{Pager, PagerCtl},
     duration,
     protocol::ChunkExt as _,
@@ -60,16 +60,14 @@ impl DailyMessenger {
         mut stream: W,
         term_db: &termini::TermInfo,
     ) -> anyhow::Result<()> {
-        assert!(matches!(
-            self.config.get().motd.clone().unwrap_or_default(),
-            config::MotdDisplayMode::Dump
-        ));
-
         let raw_motd_value = self.raw_motd_value(term_db)?;
 
-        let chunk = Chunk { kind: ChunkKind::Data, buf: raw_motd_value.as_slice() };
-
-        chunk.write_to(&mut stream).context("dumping motd")
+        // clients only take chunks of a limited size
+        for buf in raw_motd_value.chunks(consts::BUF_SIZE) {
+            let chunk = Chunk { kind: ChunkKind::Data, buf };
+            chunk.write_to(&mut stream).context("dumping motd")?;
+        }
+        Ok(())
     }
 
     /// Display the motd in a pager. Callers should do a downcast error
-- 
2.43.0


From 2cc890c8113e440edd9889e15a61de50d1a17bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:43 +0000
Subject: [PATCH 32/54] fix: attach even if the clock was set back since the
 motd was last shown

Once the clock was set back, no session could be attached to until it caught
up with the last time the pager was shown. A `show_every` which reaches back
before the earliest representable time panicked the daemon.
---
 libshpool/src/daemon/show_motd.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/libshpool/src/daemon/show_motd.rs b/libshpool/src/daemon/show_motd.rs
index 2bfe68d..8674ed1 100644
--- a/libshpool/src/daemon/show_motd.rs
+++ b/libshpool/src/daemon/show_motd.rs
@@ -94,7 +94,7 @@ impl DailyMessenger {
         shell_env: &[(OsString, OsString)],
     ) -> anyhow::Result<Option<TtySize>> {
         if let Some(debouncer) = &self.debouncer {
-            if !debouncer.should_fire()? {
+            if !debouncer.should_fire() {
                 return Ok(None);
             }
         }
@@ -168,26 +168,31 @@ impl DailyMessenger {
 
 #[derive(Debug, Clone)]
 struct Debouncer {
-    last_fired: Arc<Mutex<time::SystemTime>>,
+    last_fired: Arc<Mutex<Option<time::SystemTime>>>,
     dur: time::Duration,
 }
 
 impl Debouncer {
     fn new(dur: time::Duration) -> Self {
-        Debouncer { last_fired: Arc::new(Mutex::new(time::SystemTime::now() - (dur * 2))), dur }
+        Debouncer { last_fired: Arc::new(Mutex::new(None)), dur }
     }
 
     #[instrument(skip_all)]
-    fn should_fire(&self) -> anyhow::Result<bool> {
+    fn should_fire(&self) -> bool {
         let mut last_fired = self.last_fired.lock();
-        if last_fired.elapsed()? >= self.dur {
-            let old: time::SystemTime = *last_fired;
-            *last_fired = time::SystemTime::now();
-            info!("last_fired: old = {:?}, new = {:?}", old, *last_fired);
-            Ok(true)
-        } else {
+        // If the clock was set back there is no telling how long ago we fired,
+        // in which case we do.
+        let too_early = last_fired
+            .and_then(|t| t.elapsed().ok())
+            .map(|elapsed| elapsed < self.dur)
+            .unwrap_or(false);
+        if too_early {
             info!("not firing yet (last_fired = {:?})", *last_fired);
-            Ok(false)
+            return false;
         }
+        let old = *last_fired;
+        *last_fired = Some(time::SystemTime::now());
+        info!("last_fired: old = {:?}, new = {:?}", old, *last_fired);
+        true
     }
 }
-- 
2.43.0


From 2c0810faf7a8db2b0aac7560b7bd49c8e8d47cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:59 +0000
Subject: [PATCH 33/54] fix: show all of the pager's output

What the pager wrote just before it exited was dropped, if we noticed the
exit before having read it.
---
 libshpool/src/daemon/pager.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libshpool/src/daemon/pager.rs b/libshpool/src/daemon/pager.rs
index 49723a9..13d74e1 100644
--- a/libshpool/src/daemon/pager.rs
+++ b/libshpool/src/daemon/pager.rs
@@ -221,8 +221,11 @@ impl Pager {
                 poll::PollFd::new(watchable_master.borrow_fd(), poll::PollFlags::POLLIN),
                 poll::PollFd::new(watchable_client_stream.as_fd(), poll::PollFlags::POLLIN),
             ];
-            let nready = poll::poll(&mut poll_fds, POLL_MS).context("polling both streams")?;
-            if pager_exited.load(Ordering::Relaxed) {
+            // Check this first, so that all output of an exited pager is there already.
+            let exited = pager_exited.load(Ordering::Relaxed);
+            let timeout = if exited { 0 } else { POLL_MS };
+            let nready = poll::poll(&mut poll_fds, timeout).context("polling both streams")?;
+            if exited && !poll_fds[0].any().unwrap_or(false) {
                 let tty_size = tty_size.lock();
                 return Ok(tty_size.clone());
             }
-- 
2.43.0


From 975e4ef91827b120752a662ac1d782d0934d1858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:59 +0000
Subject: [PATCH 34/54] fix: take note of clients hanging up on the motd pager

A session whose client went away while the pager was shown was not recorded
as detached, nor was there an event or a call of the hook.
---
 libshpool/src/daemon/server.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 3cc2328..9f40231 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -341,8 +341,9 @@ impl Server {
                     }
                     Err(e) => match e.downcast::<PagerError>() {
                         Ok(PagerError::ClientHangup) => {
-                            info!("client hung up while talking to pager, bailing");
-                            return Ok(());
+                            // the bidi loop is going to notice too
+                            info!("client hung up while talking to pager");
+                            header.local_tty_size.clone()
                         }
                         Err(e) => {
                             return Err(e).context("showing motd in pager")?;
-- 
2.43.0


From 24d7b5b3ee830fda046b5aafac4c1fa57705a7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:59 +0000
Subject: [PATCH 35/54] fix: don't drop clients if the motd can't be shown

The session is up and the client was told so, so failing to show the motd in
a pager is no reason to hang up.
---
 libshpool/src/daemon/server.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 9f40231..1b02b66 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -346,7 +346,9 @@ impl Server {
                             header.local_tty_size.clone()
                         }
                         Err(e) => {
-                            return Err(e).context("showing motd in pager")?;
+                            // we have told the client that it is attached already
+                            error!("showing motd in pager: {:?}", e);
+                            header.local_tty_size.clone()
                         }
                     },
                 }
-- 
2.43.0


From 4e644cb2ccbcd7efefbb10b4a05b00db56ca65b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:31 +0000
Subject: [PATCH 36/54] fix: close the daemon's file descriptors in the motd
 pager

As with shells, only the first few were closed, so pagers inherited the ptys
of the sessions.
---
 libshpool/src/daemon/pager.rs  | 12 ++++++++----
 libshpool/src/daemon/server.rs | 15 ++++++++++-----
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/libshpool/src/daemon/pager.rs b/libshpool/src/daemon/pager.rs
index 13d74e1..6cfb7a7 100644
--- a/libshpool/src/daemon/pager.rs
+++ b/libshpool/src/daemon/pager.rs
@@ -51,7 +51,12 @@ use parking_lot::Mutex;
 use shpool_protocol::{Chunk, ChunkKind, TtySize};
 use tracing::{error, info, instrument, span, trace, warn, Level};
 
-use crate::{consts, protocol::ChunkExt as _, tty::TtySizeExt as _};
+use crate::{
+    consts,
+    daemon::server::{close_fds_from, max_open_fds},
+    protocol::ChunkExt as _,
+    tty::TtySizeExt as _,
+};
 
 // poll relatively quickly to pick up pager exits reasonably fast,
 // but still slow enough to spend most of the time parked.
@@ -137,12 +142,11 @@ impl Pager {
 
         // fork, leaving us with a handle in the master branch
         // and execing the pty wrapped pager in the child.
+        let open_max = max_open_fds()?;
         info!("forking pager pty proc");
         let fork = shpool_pty::fork::Fork::from_ptmx().context("forking pty")?;
         if fork.is_child().is_ok() {
-            for fd in consts::STDERR_FD + 1..(nix::unistd::SysconfVar::OPEN_MAX as i32) {
-                let _ = nix::unistd::close(fd);
-            }
+            close_fds_from(consts::STDERR_FD + 1, open_max);
             let err = cmd.exec();
             eprintln!("pager exec err: {err:?}");
             std::process::exit(1);
diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 1b02b66..1684194 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -1057,10 +1057,7 @@ impl Server {
             cmd.arg0(format!("-{shell_basename}"));
         };
 
-        let open_max = unistd::sysconf(unistd::SysconfVar::OPEN_MAX)
-            .context("getting the maximum number of open files")?
-            .and_then(|n| i32::try_from(n).ok())
-            .unwrap_or(DEFAULT_OPEN_MAX);
+        let open_max = max_open_fds()?;
         let noecho = self.config.get().noecho.unwrap_or(false);
         info!("about to fork subshell noecho={}", noecho);
         let mut fork = shpool_pty::fork::Fork::from_ptmx().context("forking pty")?;
@@ -1381,9 +1378,17 @@ fn does_not_support_sentinels(shell: &str) -> bool {
     shell.ends_with("nu")
 }
 
+/// The number which all file descriptors are below.
+pub fn max_open_fds() -> anyhow::Result<RawFd> {
+    Ok(unistd::sysconf(unistd::SysconfVar::OPEN_MAX)
+        .context("getting the maximum number of open files")?
+        .and_then(|n| i32::try_from(n).ok())
+        .unwrap_or(DEFAULT_OPEN_MAX))
+}
+
 /// Close all file descriptors from `first` on. This must not allocate, since
 /// we call it between fork and exec.
-fn close_fds_from(first: RawFd, open_max: RawFd) {
+pub fn close_fds_from(first: RawFd, open_max: RawFd) {
     // The limit might be huge, so only go through all fds if there is no other way.
     #[cfg(target_os = "linux")]
     // Safety: pure ffi, nobody uses these fds any more.
-- 
2.43.0


From 3ce7e7f63100bd65ffab5762ac47d89789f2d0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:31 +0000
Subject: [PATCH 37/54] fix: replace sessions whose shell->client thread has
 failed

Attaching to such a session failed without telling the client, and as the
thread was gone afterwards, later attempts got a session with nobody passing
on the output of its shell.
---
 libshpool/src/daemon/server.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 1684194..985f94f 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -521,9 +521,15 @@ impl Server {
                     {
                         info!("shell->client thread finished, joining");
                         if let Some(h) = inner.shell_to_client_join_h.take() {
-                            h.join()
-                                .map_err(|e| anyhow!("joining shell->client on reattach: {:?}", e))?
-                                .context("within shell->client thread on reattach")?;
+                            // We are replacing the session, so how it ended is no
+                            // reason to fail.
+                            match h.join() {
+                                Ok(Ok(())) => {}
+                                Ok(Err(e)) => {
+                                    warn!("within shell->client thread on reattach: {:?}", e)
+                                }
+                                Err(e) => warn!("joining shell->client on reattach: {:?}", e),
+                            }
                         }
                     }
 
-- 
2.43.0


From ba39cd3284eca533d2d005dc896e28e588c5a257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:31 +0000
Subject: [PATCH 38/54] fix: leave a running daemon's events socket alone

A daemon started on the socket of one which is running already replaced the
events socket of the latter and removed it when failing to bind the main
socket, so nobody could subscribe any more.
---
 libshpool/src/daemon/mod.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/libshpool/src/daemon/mod.rs b/libshpool/src/daemon/mod.rs
index 2231d20..a2c762c 100644
--- a/libshpool/src/daemon/mod.rs
+++ b/libshpool/src/daemon/mod.rs
@@ -109,12 +109,6 @@ pub fn run(
 
     info!("\n\n======================== STARTING DAEMON ============================\n\n");
 
-    let events_socket = events::socket_path(&socket);
-    let (events_bus, _events_handle) =
-        events::EventBus::start(events_socket.clone()).context("starting events bus")?;
-    let server =
-        server::Server::new(config_manager, hooks, runtime_dir, log_level_handle, events_bus)?;
-
     let (cleanup_socket, listener) = match systemd::activation_socket() {
         Ok(l) => {
             info!("using systemd activation socket");
@@ -134,6 +128,31 @@ pub fn run(
         }
     };
 
+    // N.B. now that we have the socket, we know that the events socket is not in
+    // use by another daemon.
+    let events_socket = events::socket_path(&socket);
+    let started = events::EventBus::start(events_socket.clone())
+        .context("starting events bus")
+        .and_then(|(events_bus, events_handle)| {
+            let server = server::Server::new(
+                config_manager,
+                hooks,
+                runtime_dir,
+                log_level_handle,
+                events_bus,
+            )?;
+            Ok((server, events_handle))
+        });
+    let (server, _events_handle) = match started {
+        Ok(s) => s,
+        Err(e) => {
+            if let Some(sock) = cleanup_socket {
+                let _ = std::fs::remove_file(sock);
+            }
+            return Err(e);
+        }
+    };
+
     // spawn the signal handler thread in the background. Both sockets need
     // explicit cleanup on signal exit because the process exits before any
     // RAII guard can run -- the signal path bypasses the sink's RAII socket
-- 
2.43.0


From 36fdcdc19cbb167cc02eb2a1e978763b314d5c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:47 +0000
Subject: [PATCH 39/54] fix: keep the user's umask when daemonizing

The umask was cleared and never restored, so the shells of an autodaemonized
daemon created files which everybody may write to.
---
 libshpool/src/daemonize.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libshpool/src/daemonize.rs b/libshpool/src/daemonize.rs
index d359a9b..33dd3be 100644
--- a/libshpool/src/daemonize.rs
+++ b/libshpool/src/daemonize.rs
@@ -147,8 +147,7 @@ impl std::ops::Drop for PidFileGuard {
 ///
 /// Safety: see nix::unistd::fork for preconditions.
 pub unsafe fn daemonize(pid_path: PathBuf) -> anyhow::Result<PidFileGuard> {
-    let old_mask = nix::sys::stat::umask(nix::sys::stat::Mode::empty());
-    info!("set empty umask (old mask: {:?})", old_mask);
+    // N.B. we keep the umask as it is, since the shells are going to inherit it.
 
     // `cd /` in order to avoid holding open the directory the user
     // happened to launch `shpool attach` in so that we don't block
-- 
2.43.0


From 1df56baf24ec7a2a68e07680222020bcf57ac359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:47 +0000
Subject: [PATCH 40/54] fix: don't remove the socket of a daemon which is just
 starting

When two clients found a stale socket at the same time, the slower one could
remove the socket which the daemon launched by the faster one was listening
on already. That daemon was out of reach then, and kept others from being
launched by holding the lock on the pid file.
---
 libshpool/src/daemonize.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/libshpool/src/daemonize.rs b/libshpool/src/daemonize.rs
index 33dd3be..a758e4c 100644
--- a/libshpool/src/daemonize.rs
+++ b/libshpool/src/daemonize.rs
@@ -56,16 +56,11 @@ where
             // don't need to do anything.
             return Ok(());
         }
-        Err(e) if e.kind() == std::io::ErrorKind::ConnectionRefused => {
-            // The socket file exists but nothing is listening (stale socket).
-            // Remove it so the new daemon can bind successfully.
-            info!("stale socket at {:?}, removing before autodaemonizing", control_sock);
-            std::fs::remove_file(control_sock)
-                .with_context(|| format!("removing stale socket at {:?}", control_sock))?;
-        }
         Err(_) => {
-            // Socket file does not exist or other error; fall through to spawn
-            // daemon.
+            // Socket file does not exist, nothing is listening (stale socket) or
+            // other error; fall through to spawn daemon. We must not remove a stale
+            // socket ourselves, since a daemon might be listening on it by now. The
+            // daemon does so once it holds the lock on the pid file.
         }
     }
     info!("no daemon running on {:?}, autodaemonizing", control_sock);
-- 
2.43.0


From c60ed1576f53c54dac13e0ec9d9b02f91d1086f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:19 +0000
Subject: [PATCH 41/54] fix: autodaemonize with relative paths

The daemon changes to the root directory, so it bound a socket given by a
relative path there, where no client was looking for it, and lost its config
on the first reload if that was given by a relative path.
---
 libshpool/src/daemonize.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libshpool/src/daemonize.rs b/libshpool/src/daemonize.rs
index a758e4c..574b7f9 100644
--- a/libshpool/src/daemonize.rs
+++ b/libshpool/src/daemonize.rs
@@ -17,7 +17,7 @@ use std::{
     fs,
     io::{Seek, SeekFrom, Write},
     os::{fd::AsRawFd, unix::net::UnixStream},
-    path::{Path, PathBuf},
+    path::{self, Path, PathBuf},
     process, thread,
     time::Duration,
 };
@@ -47,7 +47,9 @@ where
     B: AsRef<OsStr>,
     P: AsRef<Path>,
 {
-    let control_sock = control_sock.as_ref();
+    // The daemon is going to leave our directory, so paths must not depend on it.
+    let control_sock =
+        &path::absolute(control_sock).context("getting absolute path of control socket")?;
 
     match UnixStream::connect(control_sock) {
         Ok(_) => {
@@ -69,7 +71,8 @@ where
 
     let mut cmd = process::Command::new(shpool_bin);
     if let Some(config_file) = &args.config_file {
-        cmd.arg("--config-file").arg(config_file);
+        cmd.arg("--config-file")
+            .arg(path::absolute(config_file).context("getting absolute path of config file")?);
     }
     cmd.arg("--log-file")
         .arg(log_file)
-- 
2.43.0


From 0c656bc68ecc9d8718e1cb95088e1e1328985cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:19 +0000
Subject: [PATCH 42/54] fix: reload the config in autodaemonized daemons

The threads watching the config files were spawned before the forks, so
there were none in the daemon, which never took note of changes.
---
 libshpool/src/daemon/mod.rs | 27 +++------------------------
 libshpool/src/daemonize.rs  | 24 ++++++++++++++++++++++++
 libshpool/src/lib.rs        |  9 +++++++++
 3 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/libshpool/src/daemon/mod.rs b/libshpool/src/daemon/mod.rs
index a2c762c..133b750 100644
--- a/libshpool/src/daemon/mod.rs
+++ b/libshpool/src/daemon/mod.rs
@@ -12,12 +12,12 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
-use std::{env, os::unix::net::UnixListener, path::PathBuf};
+use std::{os::unix::net::UnixListener, path::PathBuf};
 
 use anyhow::Context;
 use tracing::{info, instrument};
 
-use crate::{config, consts, daemonize, hooks};
+use crate::{config, daemonize, hooks};
 
 mod etc_environment;
 pub(crate) mod events;
@@ -84,29 +84,8 @@ pub fn run(
         tracing_subscriber::registry::Registry,
     >,
     socket: PathBuf,
+    pid_guard: Option<daemonize::PidFileGuard>,
 ) -> anyhow::Result<()> {
-    let pid_guard = if let Ok(daemonize) = env::var(consts::AUTODAEMONIZE_VAR) {
-        if daemonize == "true" {
-            // Safety: this is executing before we have forked any threads,
-            // so we are still in single-threaded mode, therefore it is safe
-            // to mutate the global env.
-            unsafe {
-                env::remove_var(consts::AUTODAEMONIZE_VAR); // avoid looping
-            }
-
-            let pid_file = socket.with_file_name("daemonized-shpool.pid");
-
-            info!("daemonizing with pid_file={:?}", pid_file);
-            // Safety: we are calling this before having forked any threads,
-            // which is sufficient to meet the safety requirements for fork().
-            Some(unsafe { daemonize::daemonize(pid_file) }.context("daemonizing")?)
-        } else {
-            None
-        }
-    } else {
-        None
-    };
-
     info!("\n\n======================== STARTING DAEMON ============================\n\n");
 
     let (cleanup_socket, listener) = match systemd::activation_socket() {
diff --git a/libshpool/src/daemonize.rs b/libshpool/src/daemonize.rs
index 574b7f9..d7698b4 100644
--- a/libshpool/src/daemonize.rs
+++ b/libshpool/src/daemonize.rs
@@ -139,6 +139,30 @@ impl std::ops::Drop for PidFileGuard {
     }
 }
 
+/// Daemonize if we were launched by `maybe_launch_daemon`.
+///
+/// Safety: callers must not have forked any threads.
+pub unsafe fn maybe_daemonize<P: AsRef<Path>>(
+    control_sock: P,
+) -> anyhow::Result<Option<PidFileGuard>> {
+    if std::env::var(consts::AUTODAEMONIZE_VAR).as_deref() != Ok("true") {
+        return Ok(None);
+    }
+
+    // Safety: we are still in single-threaded mode, therefore it is safe
+    // to mutate the global env.
+    unsafe {
+        std::env::remove_var(consts::AUTODAEMONIZE_VAR); // avoid looping
+    }
+
+    let pid_file = control_sock.as_ref().with_file_name("daemonized-shpool.pid");
+
+    info!("daemonizing with pid_file={:?}", pid_file);
+    // Safety: the caller has not forked any threads, which is sufficient to
+    // meet the safety requirements for fork().
+    Ok(Some(unsafe { daemonize(pid_file) }.context("daemonizing")?))
+}
+
 /// Perform the traditional daemonization double-fork setsid dance.
 /// This should be called from within `shpool daemon` to detach it
 /// from the launching shell.
diff --git a/libshpool/src/lib.rs b/libshpool/src/lib.rs
index dbf5a8b..716d919 100644
--- a/libshpool/src/lib.rs
+++ b/libshpool/src/lib.rs
@@ -506,6 +506,14 @@ pub unsafe fn run(
         None => runtime_dir.join("shpool.socket"),
     };
 
+    // N.B. the config manager spawns threads, which don't survive forking.
+    let pid_guard = if matches!(args.command, Commands::Daemon) {
+        // Safety: our caller has not forked any threads, and neither have we yet.
+        unsafe { daemonize::maybe_daemonize(&socket)? }
+    } else {
+        None
+    };
+
     let config_manager = config::Manager::new(args.config_file.as_deref())?;
 
     if !config_manager.get().nodaemonize.unwrap_or(false) || args.daemonize {
@@ -534,6 +542,7 @@ pub unsafe fn run(
             hooks.unwrap_or(Box::new(NoopHooks {})),
             log_level_handle,
             socket,
+            pid_guard,
         ),
         Commands::Attach { force, background, ttl, cmd, dir, start_cmd, name } => {
             attach::run(socket, config_manager, name, force, background, ttl, cmd, dir, start_cmd)
-- 
2.43.0


From 36c7a4fdbbe7b5856e6972c4d9400318ea346e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:44 +0000
Subject: [PATCH 43/54] fix: look for the launched daemon once more before
 giving up

The last look was before the longest sleep, so a daemon which took between 2.5
and 5 seconds to come up was waited for, and then not noticed.
---
 libshpool/src/daemonize.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libshpool/src/daemonize.rs b/libshpool/src/daemonize.rs
index d7698b4..b7774de 100644
--- a/libshpool/src/daemonize.rs
+++ b/libshpool/src/daemonize.rs
@@ -116,6 +116,10 @@ where
             thread::sleep(Duration::from_millis(sleep_ms));
             sleep_ms *= 2;
         }
+        if UnixStream::connect(control_sock).is_ok() {
+            info!("connected to freshly launched background daemon");
+            return Ok(());
+        }
     }
 
     Err(anyhow!("daemonizing: launched daemon, but control socket never came up"))
-- 
2.43.0


From 24c6bbebb7e8e273fdc58706739e569aa61ede88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:44 +0000
Subject: [PATCH 44/54] fix: look for the config in XDG_CONFIG_HOME

That is where it is documented to be. XDG_CONFIG_DIR means nothing to anyone.
---
 libshpool/src/config.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libshpool/src/config.rs b/libshpool/src/config.rs
index 404a7b8..8270c66 100644
--- a/libshpool/src/config.rs
+++ b/libshpool/src/config.rs
@@ -155,9 +155,9 @@ impl Manager {
 
     #[cfg(not(any(target_os = "macos", target_os = "ios", target_os = "windows")))]
     fn config_base_dir() -> anyhow::Result<PathBuf> {
-        match std::env::var("XDG_CONFIG_DIR") {
-            Ok(v) => Ok(PathBuf::from(v)),
-            Err(_) => {
+        match std::env::var_os("XDG_CONFIG_HOME").map(PathBuf::from) {
+            Some(dir) if dir.is_absolute() => Ok(dir),
+            _ => {
                 let user_info = user::info().context("getting user info")?;
                 let mut path = PathBuf::from(user_info.home_dir);
                 path.push(".config");
-- 
2.43.0


From 23e47c4d12d80cdd3a5ed1582e375327acfee7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:44 +0000
Subject: [PATCH 45/54] fix: notice when a config given by a relative path is
 created

The watcher did not recognize events about it, as they come with the full path.
---
 libshpool/src/config.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libshpool/src/config.rs b/libshpool/src/config.rs
index 8270c66..9967f2b 100644
--- a/libshpool/src/config.rs
+++ b/libshpool/src/config.rs
@@ -16,7 +16,7 @@ use std::{
     borrow::Cow,
     collections::HashMap,
     fs,
-    path::{Path, PathBuf},
+    path::{self, Path, PathBuf},
     sync::{Arc, RwLock, RwLockReadGuard},
 };
 
@@ -65,7 +65,8 @@ impl Manager {
             }
             Some(config_file) => {
                 info!("parsing explicitly passed in config ({})", config_file);
-                vec![Cow::from(Path::new(config_file))]
+                // The watcher needs to know where the file is even if it does not exist yet.
+                vec![Cow::from(path::absolute(config_file).context("getting config path")?)]
             }
         };
 
-- 
2.43.0


From 34f7c9d52bf97a58cfca299e9fe400bc61a51aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:44 +0000
Subject: [PATCH 46/54] fix: keep watching all config files

When all paths had to be watched again, watching stopped at the first one which
asked for a reload, and the others were dropped.
---
 libshpool/src/config_watcher.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libshpool/src/config_watcher.rs b/libshpool/src/config_watcher.rs
index 41b5acc..f0cf56c 100644
--- a/libshpool/src/config_watcher.rs
+++ b/libshpool/src/config_watcher.rs
@@ -351,7 +351,8 @@ impl<Handler> ConfigWatcherInner<Handler> {
                 self.paths.drain().map(|(path, (watched_path, _))| (path, watched_path)).collect()
             }
         };
-        rewatch_paths.into_iter().any(|(path, watched_path)| {
+        // every path has to be watched again, so this must not stop early
+        rewatch_paths.into_iter().fold(false, |reload, (path, watched_path)| {
             if let Err(err) = self.watcher.unwatch(&watched_path) {
                 // error sometimes is expected if the watched_path was simply removed, in that
                 // case notify will automatically remove the watch.
@@ -362,6 +363,7 @@ impl<Handler> ConfigWatcherInner<Handler> {
             watch_and_add(&mut self.watcher, self.paths.entry(path))
                 .map_err(|err| error!("Failed to add watch: {:?}", err))
                 .unwrap_or(true)
+                || reload
         })
     }
 }
-- 
2.43.0


From d6c9100762b3db59b30682cc914efb15203863ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:44 +0000
Subject: [PATCH 47/54] fix: keep watching a config file which is replaced
 while in use

The watch stayed on the old file as long as that was open or had another link,
so any further changes went unnoticed.
---
 libshpool/src/config_watcher.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libshpool/src/config_watcher.rs b/libshpool/src/config_watcher.rs
index f0cf56c..8f5f9d2 100644
--- a/libshpool/src/config_watcher.rs
+++ b/libshpool/src/config_watcher.rs
@@ -433,7 +433,11 @@ fn handle_event(event: Event, paths: &HashMap<PathBuf, (PathBuf, PathBuf)>) -> (
 
     match event.kind {
         // create/remove in any segment in path
-        EventKind::Remove(_) | EventKind::Create(_) | EventKind::Modify(ModifyKind::Name(_)) => {
+        // Metadata changes when a file is unlinked, which might be all we hear about a file
+        // getting replaced, if it has another link or if someone has it open.
+        EventKind::Remove(_)
+        | EventKind::Create(_)
+        | EventKind::Modify(ModifyKind::Name(_) | ModifyKind::Metadata(_)) => {
             debug!("create/remove: {:?}", event);
             // find all path entries about this event
             let rewatch = paths
-- 
2.43.0


From 8324ce8f3c2b05947894ccd8de2d98ce449acc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:25 +0000
Subject: [PATCH 48/54] fix: notice config files which are created while a
 watch is being set up

A file or directory created after watching it had failed, but before its parent
was watched, went unnoticed.
---
 libshpool/src/config_watcher.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/libshpool/src/config_watcher.rs b/libshpool/src/config_watcher.rs
index 8f5f9d2..56d7cb5 100644
--- a/libshpool/src/config_watcher.rs
+++ b/libshpool/src/config_watcher.rs
@@ -61,14 +61,24 @@ pub fn best_effort_watch<'a>(
     path: &'a Path,
 ) -> Result<(&'a Path, Option<&'a Path>)> {
     let mut watched_path = Err(anyhow!("empty path"));
-    // Ok or last Err
-    for watch_path in path.ancestors() {
-        match watcher.watch(watch_path, RecursiveMode::NonRecursive) {
-            Ok(_) => {
-                watched_path = Ok(watch_path);
-                break;
+    // A child which is created after we failed to watch it, but before its parent is
+    // watched, goes unnoticed, so try again if there is one now. The limit is for a
+    // child which exists but which can't be watched.
+    for _ in 0..8 {
+        let mut child = None;
+        // Ok or last Err
+        for watch_path in path.ancestors() {
+            match watcher.watch(watch_path, RecursiveMode::NonRecursive) {
+                Ok(_) => {
+                    watched_path = Ok(watch_path);
+                    break;
+                }
+                Err(err) => watched_path = Err(err.into()),
             }
-            Err(err) => watched_path = Err(err.into()),
+            child = Some(watch_path);
+        }
+        if !child.is_some_and(Path::exists) {
+            break;
         }
     }
     // watched path could be any ancestor of the original path
-- 
2.43.0


From 4e346e4af3ecbf946e2edfc91d6e9b43a3c6ddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:25 +0000
Subject: [PATCH 49/54] fix: keep watching directories which another config
 file needs

Two missing config files can share the directory which is watched on behalf of
them. When one of them moved on to another directory, the other lost its watch.
---
 libshpool/src/config_watcher.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libshpool/src/config_watcher.rs b/libshpool/src/config_watcher.rs
index 56d7cb5..a1c5e7c 100644
--- a/libshpool/src/config_watcher.rs
+++ b/libshpool/src/config_watcher.rs
@@ -363,7 +363,9 @@ impl<Handler> ConfigWatcherInner<Handler> {
         };
         // every path has to be watched again, so this must not stop early
         rewatch_paths.into_iter().fold(false, |reload, (path, watched_path)| {
-            if let Err(err) = self.watcher.unwatch(&watched_path) {
+            if self.paths.iter().any(|(p, (watched, _))| *p != path && *watched == watched_path) {
+                debug!("{} is still watched for another file", watched_path.display());
+            } else if let Err(err) = self.watcher.unwatch(&watched_path) {
                 // error sometimes is expected if the watched_path was simply removed, in that
                 // case notify will automatically remove the watch.
                 error!("error unwatch {:?}", err);
-- 
2.43.0


From 3bdecbe2c3e773ba6d20a39a0946bfc50a0371bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:53 +0000
Subject: [PATCH 50/54] fix: remove the sockets when killed while starting up

A daemon which was sent a signal after it had bound its socket and before the
signal handler was installed left the socket behind.
---
 libshpool/src/daemon/mod.rs     | 40 +++++++++++++++++++++------------
 libshpool/src/daemon/signals.rs |  9 +++++---
 2 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/libshpool/src/daemon/mod.rs b/libshpool/src/daemon/mod.rs
index 133b750..a67a34f 100644
--- a/libshpool/src/daemon/mod.rs
+++ b/libshpool/src/daemon/mod.rs
@@ -12,9 +12,10 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
-use std::{os::unix::net::UnixListener, path::PathBuf};
+use std::{os::unix::net::UnixListener, path::PathBuf, sync::Arc};
 
 use anyhow::Context;
+use parking_lot::Mutex;
 use tracing::{info, instrument};
 
 use crate::{config, daemonize, hooks};
@@ -88,7 +89,25 @@ pub fn run(
 ) -> anyhow::Result<()> {
     info!("\n\n======================== STARTING DAEMON ============================\n\n");
 
-    let (cleanup_socket, listener) = match systemd::activation_socket() {
+    let activation_socket = systemd::activation_socket();
+
+    // spawn the signal handler thread in the background. Both sockets need
+    // explicit cleanup on signal exit because the process exits before any
+    // RAII guard can run -- the signal path bypasses the sink's RAII socket
+    // cleanup, so it stays as a belt-and-suspenders unlink.
+    //
+    // It has to be there before there is anything to clean up. The lock is held
+    // while binding the sockets, so that the handler can't miss one.
+    let socks_to_clean = Arc::new(Mutex::new(vec![]));
+    signals::Handler::new(Arc::clone(&socks_to_clean))
+        .spawn()
+        .context("spawning signal handler")?;
+    let mut socks = socks_to_clean.lock();
+    if let Some(pid_guard) = pid_guard.as_ref().map(|g| g.path().clone()) {
+        socks.push(pid_guard);
+    }
+
+    let (cleanup_socket, listener) = match activation_socket {
         Ok(l) => {
             info!("using systemd activation socket");
             (None, l)
@@ -103,7 +122,9 @@ pub fn run(
                     std::fs::remove_file(&socket).context("removing stale socket before bind")?;
                 }
             }
-            (Some(socket.clone()), UnixListener::bind(&socket).context("binding to socket")?)
+            let listener = UnixListener::bind(&socket).context("binding to socket")?;
+            socks.push(socket.clone());
+            (Some(socket.clone()), listener)
         }
     };
 
@@ -113,6 +134,8 @@ pub fn run(
     let started = events::EventBus::start(events_socket.clone())
         .context("starting events bus")
         .and_then(|(events_bus, events_handle)| {
+            socks.push(events_socket.clone());
+            drop(socks);
             let server = server::Server::new(
                 config_manager,
                 hooks,
@@ -132,17 +155,6 @@ pub fn run(
         }
     };
 
-    // spawn the signal handler thread in the background. Both sockets need
-    // explicit cleanup on signal exit because the process exits before any
-    // RAII guard can run -- the signal path bypasses the sink's RAII socket
-    // cleanup, so it stays as a belt-and-suspenders unlink.
-    let mut socks_to_clean: Vec<PathBuf> = cleanup_socket.iter().cloned().collect();
-    socks_to_clean.push(events_socket.clone());
-    if let Some(pid_guard) = pid_guard.as_ref().map(|g| g.path().clone()) {
-        socks_to_clean.push(pid_guard);
-    }
-    signals::Handler::new(socks_to_clean).spawn().context("spawning signal handler")?;
-
     server::Server::serve(server, listener)?;
 
     if let Some(sock) = cleanup_socket {
diff --git a/libshpool/src/daemon/signals.rs b/libshpool/src/daemon/signals.rs
index 114a1f7..a7e7779 100644
--- a/libshpool/src/daemon/signals.rs
+++ b/libshpool/src/daemon/signals.rs
@@ -19,14 +19,15 @@ use std::{
 };
 
 use anyhow::Context;
+use parking_lot::Mutex;
 use signal_hook::{consts::TERM_SIGNALS, flag, iterator::Signals};
 use tracing::{error, info};
 
 pub struct Handler {
-    socks_to_clean: Vec<PathBuf>,
+    socks_to_clean: Arc<Mutex<Vec<PathBuf>>>,
 }
 impl Handler {
-    pub fn new(socks_to_clean: Vec<PathBuf>) -> Self {
+    pub fn new(socks_to_clean: Arc<Mutex<Vec<PathBuf>>>) -> Self {
         Handler { socks_to_clean }
     }
 
@@ -58,7 +59,9 @@ impl Handler {
                 assert!(TERM_SIGNALS.contains(&signal));
 
                 info!("term sig handler: cleaning up sockets");
-                for sock in &self.socks_to_clean {
+                // Held until we are gone, so that nothing is bound once we are done.
+                let socks_to_clean = self.socks_to_clean.lock();
+                for sock in socks_to_clean.iter() {
                     info!("term sig handler: cleaning up socket: {:?}", sock);
                     match std::fs::remove_file(sock) {
                         Ok(()) => {}
-- 
2.43.0


From 9c336ff4a2d677434a16d9b133ccaed42f71ae3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:55 +0000
Subject: [PATCH 51/54] fix: hold the lock on the pid file while the daemon is
 running

It was released as soon as the daemon was in the background, so when two clients
launched a daemon at once, the second one did not notice the first and replaced
the pid file, or even the socket.
---
 libshpool/src/daemonize.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libshpool/src/daemonize.rs b/libshpool/src/daemonize.rs
index b7774de..e5555c6 100644
--- a/libshpool/src/daemonize.rs
+++ b/libshpool/src/daemonize.rs
@@ -127,6 +127,8 @@ where
 
 pub struct PidFileGuard {
     p: PathBuf,
+    /// Keeps other daemons from starting as long as we are running.
+    _lock: fcntl::Flock<fs::File>,
 }
 
 impl PidFileGuard {
@@ -224,7 +226,7 @@ pub unsafe fn daemonize(pid_path: PathBuf) -> anyhow::Result<PidFileGuard> {
     // now.
     unsafe { redirect_std_fds_to_null()? };
 
-    Ok(PidFileGuard { p: pid_path })
+    Ok(PidFileGuard { p: pid_path, _lock: pid_file })
 }
 
 // Safety: callers MUST NOT call this when the std file descriptors are
-- 
2.43.0


From 16fea50118306def3e568aff3b93ede31f1c8813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:00 +0000
Subject: [PATCH 52/54] fix: don't lose a signal while the signal handlers are
 being installed

A signal which arrived once the flags were registered, but before the iterator
was, did nothing but arm the immediate exit for the next one.
---
 libshpool/src/daemon/signals.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libshpool/src/daemon/signals.rs b/libshpool/src/daemon/signals.rs
index a7e7779..52ef3f5 100644
--- a/libshpool/src/daemon/signals.rs
+++ b/libshpool/src/daemon/signals.rs
@@ -34,6 +34,9 @@ impl Handler {
     pub fn spawn(self) -> anyhow::Result<()> {
         info!("spawning signal handler thread");
 
+        // This comes first so that a signal is not merely noted by the flags below.
+        let mut signals = Signals::new(TERM_SIGNALS).context("creating signal iterator")?;
+
         // This sets us up to shutdown immediately if someone
         // mashes ^C so we don't get stuck attempting a graceful
         // shutdown.
@@ -48,7 +51,6 @@ impl Handler {
             flag::register(*sig, Arc::clone(&term_now))?;
         }
 
-        let mut signals = Signals::new(TERM_SIGNALS).context("creating signal iterator")?;
         thread::spawn(move || {
             // Signals are exposed via an iterator so this loop is just to consume
             // that by blocking until the first value is emitted. Clippy thinks we
-- 
2.43.0


From 11b028229efdf7be36f5be4893374337e849ca78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:41 +0000
Subject: [PATCH 53/54] fix: attach to a session even if its files cannot be
 written

---
 libshpool/src/daemon/server.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 985f94f..7d4c984 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -289,8 +289,14 @@ impl Server {
             Err(err) => return Err(err)?,
         };
 
-        self.link_ssh_auth_sock(&header).context("linking SSH_AUTH_SOCK")?;
-        self.populate_session_env_file(&header).context("populating session env file")?;
+        // The session is in the table by now, and its client waits for a reply, so
+        // not being able to write these files is no reason to bail.
+        if let Err(e) = self.link_ssh_auth_sock(&header) {
+            error!("linking SSH_AUTH_SOCK: {:?}", e);
+        }
+        if let Err(e) = self.populate_session_env_file(&header) {
+            error!("populating session env file: {:?}", e);
+        }
 
         test_hooks::emit("handle-attach-before-inner-session-lock");
 
-- 
2.43.0


From 81ada4992a49d9889fb2bde3d0854b8cd4599748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:37 +0000
Subject: [PATCH 54/54] fix: attach through a version mismatch however long the
 user takes to go on

---
 libshpool/src/attach.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libshpool/src/attach.rs b/libshpool/src/attach.rs
index aa2f1d0..8c22c93 100644
--- a/libshpool/src/attach.rs
+++ b/libshpool/src/attach.rs
@@ -366,6 +366,11 @@ impl Attach {
                         }
                     }
                     info!("user continued through version mismatch");
+
+                    // The daemon only waits a moment for our request and will have
+                    // given up on this connection by now, so we need a fresh one.
+                    drop(client);
+                    return self.dial_client(true);
                 }
 
                 Ok(client)
-- 
2.43.0


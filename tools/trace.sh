#!/bin/bash
# trace.sh ENTRY REPLAY: rerun a counterexample natively with the daemon's own log
set -e
cd "$(dirname "$0")/.."
D=/tmp/dbgh
mkdir -p $D
rsync -a --delete --exclude target harness/ $D/ 2>/dev/null || { cp -a harness/. $D/; }
sed -i 's/tracing = { version = "0.1", features = .*/tracing = "0.1"/' $D/Cargo.toml
cat >> $D/src/sim/os.rs <<'R'
pub struct Tr;
struct Vis(String);
impl tracing::field::Visit for Vis {
    fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) {
        use std::fmt::Write;
        let _ = write!(self.0, " {}={:?}", f.name(), v);
    }
}
impl tracing::Subscriber for Tr {
    fn enabled(&self, m: &tracing::Metadata<'_>) -> bool { m.is_event() && m.target().starts_with("libshpool") }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id { tracing::span::Id::from_u64(1) }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        let mut v = Vis(String::new());
        e.record(&mut v);
        let kk = k();
        let s = format!("{:>8}us T{} {} {}:{}{}", (kk.now - 0) / 1000, kk.cur, String::from_utf8_lossy(&kk.th[kk.cur].name).trim_end_matches(char::from(0)), e.metadata().file().unwrap_or("?").rsplit('/').next().unwrap(), e.metadata().line().unwrap_or(0), v.0);
        rt::log(&s[..s.len().min(400)]);
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}
R
sed -i 's|^    unsafe { rt_sim_on() };|    let _ = tracing::subscriber::set_global_default(Tr);\n    unsafe { rt_sim_on() };|' $D/src/sim/os.rs
python3 - <<'P'
p='/tmp/dbgh/src/sim/kernel.rs'
s=open(p).read()
s=s.replace('''    kk.pre.budget -= 1;
    let s =''','''    kk.pre.budget -= 1;
    { let t = format!("PREEMPT T{} {} kind {} choice {}", kk.cur, String::from_utf8_lossy(&kk.th[kk.cur].name).trim_end_matches(char::from(0)), kind, c); rt::log(&t); let b = std::backtrace::Backtrace::force_capture().to_string(); for l in b.lines().filter(|l| l.contains("/repo/")) { rt::log(l); } }
    let s =''')
open(p,'w').write(s)
P
export RUSTUP_TOOLCHAIN=1.85.0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTFLAGS="--cfg shpool_verif"
cd $D && cargo build --offline --release --config 'profile.release.debug="line-tables-only"' >/tmp/dbgh.log 2>&1 || { tail -30 /tmp/dbgh.log; exit 1; }
./target/release/harness "$1" "$2" 2>&1

//! Scenarios over the whole daemon.
use crate::rt::*;
use crate::sim::kernel::*;
use crate::sim::os::*;

pub mod client;
pub mod hooks;
pub mod input;
pub mod watch;
pub mod auto;
pub mod startup;
pub mod cli;
pub mod motd;
pub mod files;
pub mod spawn;
pub mod prompt;
pub mod stuck;
pub mod restore;
pub mod resize;
pub mod events;
pub mod vars;
pub mod ttl;
pub mod sessions;
pub mod attach;
pub mod output;

pub fn smoke() {
    boot();
    let _d = daemon("");
    let mut a = Client::named("s");
    check(a.created(), "the session is not created");
    settle();
    output(0, b"hello");
    settle();
    a.pump();
    check(a.data == b"hello", "output is lost");
    a.send(b"ls\n");
    settle();
    check(input(0) == b"ls\n", "input is lost");
    let l = list();
    check(l.len() == 1 && l[0].name == "s", "the session is not listed");
    let r = kill(&["s"]);
    check(r.not_found_sessions.is_empty(), "not found");
    check(list().is_empty(), "still listed");
    advance(SEC);
    a.pump();
    check(a.eof, "the client is not let go");
    reach("killed");
}

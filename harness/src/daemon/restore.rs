//! What a client which attaches again is shown.
use crate::rt::*;
use crate::sim::kernel::*;
use crate::sim::os::*;
use shpool_protocol::*;
use shpool_vt100::Parser;

/// The emulator's width, cut down from 1024 to save time.
const W: u16 = 40;
fn cfg(mode: &str) -> String {
    format!("session_restore_mode = {mode}\nvt100_output_spool_width = {W}\n")
}
fn sized(rows: u16) -> AttachHeader {
    let mut h = header("s");
    h.local_tty_size = size(rows, W);
    h
}
/// Two terminals show the same and take input the same way.
fn same_screen(a: &Parser, b: &Parser, rows: u16, exact: bool) {
    let (a, b) = (a.screen(), b.screen());
    for r in 0..rows {
        for c in 0..W {
            match (a.cell(r, c), b.cell(r, c)) {
                (Some(x), Some(y)) => {
                    let (p, q) = (x.contents(), y.contents());
                    check(
                        same(p.as_bytes(), q.as_bytes()) || (p.is_empty() && q == " ") || (q.is_empty() && p == " "),
                        "the screen shown is not what the shell printed",
                    );
                    if exact {
                        check(
                            x.fgcolor() == y.fgcolor()
                                && x.bgcolor() == y.bgcolor()
                                && x.bold() == y.bold()
                                && x.italic() == y.italic()
                                && x.underline() == y.underline()
                                && x.inverse() == y.inverse(),
                            "the colours shown are not what the shell printed",
                        );
                    }
                }
                (None, None) => {}
                _ => fail("a screen of another size"),
            }
        }
    }
    check(a.cursor_position() == b.cursor_position(), "the cursor is not where the shell left it");
    check(
        a.hide_cursor() == b.hide_cursor()
            && a.application_keypad() == b.application_keypad()
            && a.application_cursor() == b.application_cursor()
            && a.bracketed_paste() == b.bracketed_paste()
            && a.mouse_protocol_mode() == b.mouse_protocol_mode()
            && a.mouse_protocol_encoding() == b.mouse_protocol_encoding(),
        "the input modes are not what the shell asked for",
    );
    if exact {
        check(
            a.fgcolor() == b.fgcolor() && a.bold() == b.bold() && a.inverse() == b.inverse(),
            "further output would have other colours",
        );
    }
}

const FRAGS: [&[u8]; 12] = [
    b"ab",
    b"\r\n",
    b"\x1b[31;1m",
    b"\x1b[2J",
    b"\x1b[2;3H",
    b"\x1b[?2004h",
    b"\x1b[?1h\x1b=",
    b"\x1b[?25l",
    b"\x1b[?1000h",
    b"l1\r\nl2\r\nl3\r\nl4\r\n",
    b"\x1b[m",
    b"\x1b[1",
];
/// Any output, printed while a client is attached and while none is.
pub fn screen() {
    screen_with(2, 2);
}
pub fn screen_deep() {
    screen_with(3, 1);
}
fn screen_with(n: usize, sym: usize) {
    boot();
    limit(60 * SEC);
    let _d = daemon(&cfg("\"screen\""));
    let mut rows = 3;
    let mut r = Parser::new(rows, W, 100);
    let mut c = Client::attach(sized(rows));
    check(c.created(), "the client is not attached");
    advance(60 * MS);
    let leave = choose(n as u32 + 1, "leave") as usize;
    let mut syms = 0;
    for i in 0..n {
        if i == leave {
            c.hangup();
            advance(700 * MS);
        }
        let f = choose(FRAGS.len() as u32 + (syms < sym) as u32, "fragment") as usize;
        let b: Vec<u8> = if f == FRAGS.len() {
            syms += 1;
            let v: [u8; 1] = sym_array("byte");
            v.to_vec()
        } else {
            FRAGS[f].to_vec()
        };
        output(0, &b);
        r.process(&b);
        advance(60 * MS);
    }
    if leave == n {
        c.hangup();
        advance(700 * MS);
    }
    let new = [rows, 5, 2][choose(3, "size") as usize];
    if new != rows {
        rows = new;
        r.screen_mut().set_size(rows, W);
    }
    let mut c = Client::attach(sized(rows));
    check(c.reattached(), "the client is not attached");
    advance(120 * MS);
    c.pump();
    let mut f = Parser::new(rows, W, 0);
    f.process(&c.data);
    same_screen(&r, &f, rows, true);
    // a sequence cut in two by the departure
    let at = c.data.len();
    output(0, b"z");
    advance(60 * MS);
    c.pump();
    check(&c.data[at..] == b"z", "further output is not what the shell prints");
    reach(if leave < n { "away" } else { "here" });
}

/// A screen too big for one frame, and one which changes its size.
pub fn big() {
    boot();
    limit(60 * SEC);
    let (w, rows) = (1000u16, 40u16);
    let _d = daemon(&format!("session_restore_mode = \"screen\"\nvt100_output_spool_width = {w}\n"));
    let mut c = Client::attach(sized(rows));
    check(c.created(), "the client is not attached");
    let mut r = Parser::new(rows, w, 100);
    let n = [3usize, 35, 60][choose(3, "lines") as usize];
    for i in 0..n {
        let mut l = vec![b'a' + (i % 26) as u8; 950];
        l.extend_from_slice(b"\r\n");
        output(0, &l);
        r.process(&l);
        advance(MS);
    }
    let resized = choose(2, "resize") == 1;
    if resized {
        check(resize("s", [20, 80, 0, 0]).is_some(), "a resize is not answered");
        advance(60 * MS);
        r.screen_mut().set_size(20, w);
        output(0, b"more");
        r.process(b"more");
    }
    advance(100 * MS);
    c.pump();
    c.hangup();
    advance(700 * MS);
    let mut h = sized(45);
    h.local_tty_size.cols = 80;
    let mut c = Client::attach(h);
    r.screen_mut().set_size(45, w);
    check(c.reattached(), "the client is not attached");
    for _ in 0..10 {
        advance(20 * MS);
        c.pump();
    }
    check(c.max_chunk <= 16384, "a frame is bigger than clients accept");
    let mut f = Parser::new(45, w, 0);
    f.process(&c.data);
    check(f.screen().contents() == r.screen().contents(), "the screen shown is not what the shell printed");
    check(f.screen().cursor_position() == r.screen().cursor_position(), "the cursor is not where the shell left it");
    reach(if c.data.len() > 16384 { "big" } else { "small" });
}

/// The last lines, at least as many as the terminal has, and nothing at all.
pub fn lines() {
    lines_with(2);
}
/// Fewer lines than the terminal has.
pub fn few() {
    lines_with(6);
}
fn lines_with(rows: u16) {
    boot();
    limit(60 * SEC);
    let vterm = choose(2, "engine") == 1;
    let n = if rows == 2 { 1 + choose(4, "n") as usize } else { choose(4, "n") as usize };
    let spool = if rows == 2 { [None, Some(100)][choose(2, "spool") as usize] } else { None };
    let mode = if n == 4 { String::from("\"simple\"") } else { format!("{{ lines = {} }}", n + 1) };
    let mut s = cfg(&mode);
    if let Some(l) = spool {
        s.push_str(&format!("output_spool_lines = {l}\n"));
    }
    if vterm {
        s.push_str("session_restore_engine = \"vterm\"\n");
    }
    let _d = daemon(&s);
    let mut c = Client::attach(sized(rows));
    check(c.created(), "the client is not attached");
    advance(60 * MS);
    let k = choose(8, "lines") as usize;
    let away = if rows == 2 { choose(k as u32 + 1, "away") as usize } else { k };
    let mut all: Vec<String> = vec![];
    for i in 0..k {
        if i == away {
            c.hangup();
            advance(700 * MS);
        }
        let t = format!("l{i}");
        if i > 0 {
            output(0, b"\r\n");
        }
        output(0, t.as_bytes());
        all.push(t);
        advance(55 * MS);
    }
    if away == k {
        c.hangup();
        advance(700 * MS);
    }
    let mut c = Client::attach(sized(rows));
    check(c.reattached(), "the client is not attached");
    advance(120 * MS);
    c.pump();
    if n == 4 {
        check(c.data.is_empty(), "something is shown although nothing should be");
        reach("simple");
        return;
    }
    let mut f = Parser::new(50, W, 0);
    f.process(&c.data);
    let got: Vec<String> = f.screen().contents().lines().map(|l| l.trim_end().to_string()).filter(|l| !l.is_empty()).collect();
    let want = &all[all.len().saturating_sub(n + 1)..];
    if rows > 2 && !vterm && k > n + 1 && got == &all[k - n - 2..k - 1] {
        fail("the line of the cursor is left out");
    }
    check(got == want, "the lines shown are not the last ones printed");
    reach(if vterm { "vterm" } else { "vt100" });
}

mod rt;
mod leaf;
#[cfg(feature = "daemon")]
mod daemon;
mod sim;

extern "C" {
    fn rt_open(p: *const libc::c_char);
}

macro_rules! entries {
    ($([$f:literal] $m:path => $n:ident;)*) => {
        $(#[cfg(feature = $f)] #[no_mangle] #[inline(never)] pub extern "C" fn $n() { $m(); reach_end(); })*
        #[used]
        pub static TABLE: &[(&str, extern "C" fn())] = &[$(#[cfg(feature = $f)] (stringify!($n), $n),)*];
    }
}

#[inline(never)]
fn reach_end() {
    rt::reach("END");
}

entries! {
    ["duration"] leaf::duration::short => h_duration_short;
    ["duration"] leaf::duration::wide => h_duration_wide;
    ["keys"] leaf::keys::table => h_keys_table;
    ["keys"] leaf::keys::one => h_keys_one;
    ["keys"] leaf::keys::two => h_keys_two;
    ["keys"] leaf::keys::text => h_keys_text;
    ["keys"] leaf::keys::frags => h_keys_frags;
    ["template"] leaf::template::differential => h_template;
    ["template"] leaf::template::frags => h_template_frags;
    ["chunk"] leaf::chunk::roundtrip => h_chunk_roundtrip;
    ["chunk"] leaf::chunk::robust => h_chunk_robust;
    ["etcenv"] leaf::etcenv::lines => h_etcenv;
    ["sentinel"] leaf::sentinel::overlap => h_sentinel_overlap;
    ["sentinel"] leaf::sentinel::real => h_sentinel_real;
    ["daemon"] daemon::output::bursts => h_output_bursts;
    ["daemon"] daemon::output::bulk => h_output_bulk;
    ["daemon"] daemon::output::race => h_output_race;
    ["daemon"] daemon::output::race2 => h_output_race2;
    ["daemon"] daemon::attach::pair1 => h_attach_pair;
    ["daemon"] daemon::attach::pair2 => h_attach_pair2;
    ["daemon"] daemon::attach::handover1 => h_attach_handover;
    ["daemon"] daemon::attach::handover2 => h_attach_handover2;
    ["daemon"] daemon::sessions::history1 => h_sess_one;
    ["daemon"] daemon::sessions::history2 => h_sess_two;
    ["daemon"] daemon::sessions::history1_deep => h_sess_one_deep;
    ["daemon"] daemon::sessions::history2_deep => h_sess_two_deep;
    ["daemon"] daemon::sessions::clash1 => h_sess_clash;
    ["daemon"] daemon::sessions::clash2 => h_sess_clash2;
    ["daemon"] daemon::ttl::one => h_ttl_one;
    ["daemon"] daemon::ttl::two => h_ttl_two;
    ["daemon"] daemon::ttl::one_deep => h_ttl_one_deep;
    ["daemon"] daemon::ttl::two_deep => h_ttl_two_deep;
    ["daemon"] daemon::ttl::clash1 => h_ttl_clash;
    ["daemon"] daemon::attach::handover0 => h_attach_gap;
    ["daemon"] daemon::sessions::clash0 => h_sess_gap;
    ["daemon"] daemon::ttl::any => h_ttl_any;
    ["daemon"] daemon::output::reattach => h_output_reattach;
    ["daemon"] daemon::vars::story1 => h_vars;
    ["daemon"] daemon::vars::deep => h_vars_deep;
    ["daemon"] daemon::vars::clash1 => h_vars_clash;
    ["daemon"] daemon::vars::gap => h_vars_gap;
    ["daemon"] daemon::vars::big => h_vars_big;
    ["daemon"] daemon::events::bursts => h_event_bursts;
    ["daemon"] daemon::events::story => h_event_story;
    ["daemon"] daemon::events::watch => h_event_watch;
    ["daemon"] daemon::events::race => h_event_race;
    ["daemon"] daemon::events::race2 => h_event_race2;
    ["daemon"] daemon::client::pipe => h_client_pipe;
    ["daemon"] daemon::client::eof => h_client_eof;
    ["daemon"] daemon::client::race => h_client_race;
    ["daemon"] daemon::client::stuck => h_client_stuck;
    ["daemon"] daemon::client::switches => h_client_switch;
    ["daemon"] daemon::client::answers => h_client_answers;
    ["daemon"] daemon::client::whole => h_client_whole;
    ["daemon"] daemon::resize::ops => h_resize_ops;
    ["daemon"] daemon::resize::ops_deep => h_resize_ops_deep;
    ["daemon"] daemon::resize::odd => h_resize_odd;
    ["daemon"] daemon::resize::race => h_resize_race;
    ["daemon"] daemon::resize::winches => h_resize_winch;
    ["daemon"] daemon::resize::winches_race => h_resize_winch_race;
    ["daemon"] daemon::resize::any => h_resize_any;
    ["daemon"] daemon::restore::screen => h_restore_screen;
    ["daemon"] daemon::restore::screen_deep => h_restore_screen_deep;
    ["daemon"] daemon::restore::big => h_restore_big;
    ["daemon"] daemon::restore::lines => h_restore_lines;
    ["daemon"] daemon::restore::few => h_restore_few;
    ["daemon"] daemon::stuck::client => h_stuck_client;
    ["daemon"] daemon::stuck::client_race => h_stuck_client_race;
    ["daemon"] daemon::stuck::request_cut => h_stuck_request;
    ["daemon"] daemon::stuck::answer => h_stuck_answer;
    ["daemon"] daemon::stuck::shell => h_stuck_shell;
    ["daemon"] daemon::stuck::shell_race => h_stuck_shell_race;
    ["daemon"] daemon::stuck::force => h_stuck_force;
    ["daemon"] daemon::prompt::kinds => h_prompt_kinds;
    ["daemon"] daemon::prompt::splits => h_prompt_splits;
    ["daemon"] daemon::prompt::late => h_prompt_late;
    ["daemon"] daemon::prompt::ends => h_prompt_ends;
    ["daemon"] daemon::prompt::race => h_prompt_race;
    ["daemon"] daemon::prompt::big => h_prompt_big;
    ["daemon"] daemon::spawn::env => h_spawn_env;
    ["daemon"] daemon::spawn::program => h_spawn_program;
    ["daemon"] daemon::spawn::bad => h_spawn_bad;
    ["daemon"] daemon::spawn::no_fork => h_spawn_nofork;
    ["daemon"] daemon::files::links => h_files_links;
    ["daemon"] daemon::files::links_deep => h_files_links_deep;
    ["daemon"] daemon::files::links_race => h_files_links_race;
    ["daemon"] daemon::files::names => h_files_names;
    ["daemon"] daemon::files::peers => h_peers;
    ["daemon"] daemon::motd::dump => h_motd_dump;
    ["daemon"] daemon::motd::pager => h_motd_pager;
    ["daemon"] daemon::motd::pager_race => h_motd_pager_race;
    ["daemon"] daemon::motd::pager_stuck => h_motd_pager_stuck;
    ["daemon"] daemon::motd::every => h_motd_every;
    ["daemon"] daemon::motd::no_pager => h_motd_no_pager;
    ["daemon"] daemon::cli::ops => h_cli_ops;
    ["daemon"] daemon::cli::lists => h_cli_lists;
    ["daemon"] daemon::cli::var => h_cli_var;
    ["daemon"] daemon::cli::versions => h_cli_versions;
    ["daemon"] daemon::cli::events => h_cli_events;
    ["daemon"] daemon::cli::attach => h_cli_attach;
    ["daemon"] daemon::cli::old => h_cli_old;
    ["daemon"] daemon::cli::level => h_cli_level;
    ["daemon"] daemon::hooks::story => h_hooks_story;
    ["daemon"] daemon::hooks::story_deep => h_hooks_story_deep;
    ["daemon"] daemon::hooks::race => h_hooks_race;
    ["daemon"] daemon::startup::alone => h_start_alone;
    ["daemon"] daemon::startup::apart => h_start_apart;
    ["daemon"] daemon::startup::second => h_start_second;
    ["daemon"] daemon::spawn::pager => h_motd_run;
    ["daemon"] daemon::auto::client => h_auto_client;
    ["daemon"] daemon::auto::race => h_auto_race;
    ["daemon"] daemon::auto::background => h_auto_background;
    ["daemon"] daemon::watch::reload => h_watch_reload;
    ["daemon"] daemon::watch::race => h_watch_race;
    ["daemon"] daemon::watch::merge => h_watch_merge;
    ["daemon"] daemon::watch::invalid => h_watch_invalid;
    ["daemon"] daemon::watch::explicit => h_watch_explicit;
    ["daemon"] daemon::watch::long => h_watch_long;
    ["daemon"] daemon::startup::early => h_start_early;
    ["daemon"] daemon::startup::activated => h_start_activated;
    ["daemon"] daemon::output::linger => h_output_linger;
    ["daemon"] daemon::sessions::linger => h_sess_linger;
    ["daemon"] daemon::files::hopeless => h_files_hopeless;
    ["daemon"] daemon::resize::moved => h_resize_moved;
    ["daemon"] daemon::resize::moved_race => h_resize_moved_race;
    ["daemon"] daemon::watch::restless => h_watch_restless;
    ["daemon"] daemon::prompt::says => h_prompt_says;
    ["daemon"] daemon::smoke => h_daemon_smoke;
    ["daemon"] daemon::input::default_binding => h_input_default;
    ["daemon"] daemon::input::other_bindings => h_input_other;
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 {
        for (n, _) in TABLE {
            println!("{n}");
        }
        return;
    }
    if a.len() > 2 {
        let c = std::ffi::CString::new(a[2].as_str()).unwrap();
        unsafe { rt_open(c.as_ptr()) };
    }
    std::panic::set_hook(Box::new(|i| {
        let s = format!("panic {i}");
        rt::fail(&s);
    }));
    let f = TABLE.iter().find(|(n, _)| *n == a[1]).expect("no such entry").1;
    f();
    rt::end();
}

mod builder;
mod compose;
mod config;
mod pool;
mod life;
mod mock;
mod net;
mod faulty;
mod writing;
mod body;
mod files;
mod pathcheck;
mod global;
mod params;
mod text;
mod netserver;
mod server;
mod target;
mod sending;
mod shared;
mod router;
mod util;
mod walk;

fn main() {
    util::quiet_panics();
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match a[1] {
        "replay" => match a[2] {
            "router" => router::replay(a[3], a[4]),
            "shared" => shared::replay(a[3], a[4]),
            "builder" => builder::replay(a[3], a[4]),
            "compose" => compose::replay(a[3], a[4]),
            "life" => life::replay(a[3], a[4]),
            "sending" => sending::replay(a[3], a[4]),
            "target" => target::replay(a[3], a[4]),
            "encoding" => target::replay_encoding(a[3], a[4]),
            "server" => server::replay(a[3], a[4]),
            "stress" => server::replay_stress(a[3], a[4]),
            "netserver" => netserver::replay(a[3], a[4]),
            "text" => text::replay(a[3], a[4]),
            "params" => params::replay(a[3], a[4]),
            "global" => global::replay(a[3], a[4]),
            "pathcheck" => pathcheck::replay(a[3], a[4]),
            "files" => files::replay(a[3], a[4]),
            "body" => body::replay(a[3], a[4]),
            "writing" => writing::replay(a[3], a[4]),
            "faulty" => faulty::replay(a[3], a[4]),
            "walk" => walk::replay(a[3], a[4]),
            "mock" => mock::replay(a[3], a[4]),
            "config" => config::replay(a[3], a[4]),
            "pool" => pool::replay(a[3], a[4]),
            k => panic!("unknown kind {}", k),
        },
        "known" => match a[2] {
            "builder" => builder::known(a[3]),
            k => panic!("unknown kind {}", k),
        },
        "record" => {
            util::watch_recording();
            let seed = a[3].parse().unwrap();
            let count = a[4].parse().unwrap();
            match a[2] {
                "router" => router::record(seed, count, a[5]),
                "shared" => shared::record(seed, count, a[5]),
                "builder" => builder::record(seed, count, a[5]),
                "compose" => compose::record(seed, count, a[5]),
                "sharedcompose" => compose::record_shared(seed, count, a[5]),
                "life" => life::record(seed, count, a[5]),
                "sending" => sending::record(seed, count, a[5]),
                "target" => target::record(seed, count, a[5]),
                "server" => server::record(seed, count, a[5]),
                "text" => text::record(seed, count, a[5]),
                "params" => params::record(seed, count, a[5]),
                "global" => global::record(seed, count, a[5]),
                "pathcheck" => pathcheck::record(seed, count, a[5]),
                "files" => files::record(seed, count, a[5]),
                "body" => body::record(seed, count, a[5]),
                "writing" => writing::record(seed, count, a[5]),
                "faulty" => faulty::record(seed, count, a[5]),
                "walk" => walk::record(seed, count, a[5]),
                "mock" => mock::record(seed, count, a[5]),
                "config" => config::record(seed, count, a[5]),
                k => panic!("unknown kind {}", k),
            }
        }
        c => panic!("unknown command {}", c),
    }
}

mod cflow;
mod frame;
mod handles;
mod pair;
mod scale;
mod secrets;
mod sflow;
mod sizes;
mod util;
use cflow::{Cfg, Kind, *};

nd::harnesses!(s_secrets, c_secrets, c_scale, s_scale, pair_scale, h_scale, c_order, c_order_long, c_literal, c_literal_long, c_auth, c_auth_long, c_idle, c_idle_long, c_resp, c_mixed,
    c_frame_greeting, c_frame, c_frame_relaxed, s_frame, s_frame_relaxed, s_frame_max,
    s_sizes, c_sizes, s_order, s_kinds, c_any, c_any_queue, c_any_in, s_any_in, s_any, s_literal, s_auth, s_idle,
    pair_lit, pair_flows, h_seq, h_conc,
    c_stream, s_stream, s_stream_relaxed, s_stream_max, s_texts, s_mixed, s_flow_bytes, s_flow_bytes_t, s_flow_relaxed, s_flow_relaxed_t, s_bad,
    c_literal_mid, c_auth_mid, c_auth_queue, c_mixed_q,
    c_stream_t, s_stream_t, s_stream_max_t, s_frame_max_t, s_frame_t, c_frame_t, c_frame_greeting_t,
    c_resp_t, s_order_t, s_literal_t, s_auth_t, s_idle_t, s_mixed_t, h_conc3, h_seq_t, pair_lit_t, pair_flows_t);

const C: Cfg = Cfg {
    kinds: &[],
    cmds: 0,
    classes: &[],
    msgs: 0,
    user: 0,
    calls: 0,
    rounds: 0,
    drain: false,
    greeted: true,
};

/// From here on, messages may be of every kind the real ones are.
fn all_kinds() {
    *imap_codec::model::kinds() = true;
}
fn c_any() {
    all_kinds();
    cflow::run(&Cfg {
        greeted: nd::flip(),
        kinds: &[Kind::Any(0), Kind::Any(SYNC1), Kind::Auth, Kind::Idle],
        cmds: 2,
        classes: &[CCR, TAGGED],
        msgs: 1,
        rounds: 4,
        drain: true,
        ..C
    });
}
/// More than one command waits while another one is sent.
fn c_any_queue() {
    all_kinds();
    cflow::run(&Cfg {
        kinds: &[Kind::Any(0), Kind::Auth],
        cmds: 3,
        classes: &[TAGGED],
        msgs: 1,
        rounds: 5,
        drain: true,
        ..C
    });
}
fn c_any_in() {
    all_kinds();
    cflow::run(&Cfg {
        kinds: &[Kind::Noop, Kind::Auth, Kind::Idle],
        cmds: 1,
        classes: &[DATA, CCR, TAGGED],
        msgs: 2,
        rounds: 4,
        drain: true,
        ..C
    });
}
fn s_sizes() {
    sizes::server_sizes()
}
fn c_sizes() {
    sizes::client_sizes()
}
fn s_any_in() {
    all_kinds();
    frame::server(&S);
}
fn c_order() {
    cflow::run(&Cfg {
        kinds: &[Kind::Noop, Kind::Model(NONSYNC1), Kind::Auth, Kind::Idle],
        cmds: 2,
        classes: &[DATA, TAGGED],
        msgs: 2,
        rounds: 5,
        greeted: false,
        ..C
    });
}
fn c_order_long() {
    cflow::run(&Cfg {
        kinds: &[Kind::Noop, Kind::Model(NONSYNC1), Kind::Model(SYNC1)],
        cmds: 4,
        classes: &[CCR, DATA],
        msgs: 3,
        rounds: 6,
        drain: true,
        greeted: false,
        ..C
    });
}
fn c_literal() {
    cflow::run(&Cfg {
        kinds: &[Kind::Model(SYNC1), Kind::Model(SYNC_SYNC)],
        cmds: 2,
        classes: &[CCR, TAGGED],
        msgs: 2,
        rounds: 6,
        ..C
    });
}
fn c_literal_long() {
    cflow::run(&Cfg {
        kinds: &[
            Kind::Model(SYNC1),
            Kind::Model(SYNC_SYNC),
            Kind::Model(NONSYNC_SYNC),
            Kind::Model(SYNC_NONSYNC),
            Kind::Model(SYNC1_EMPTY),
        ],
        cmds: 2,
        classes: &[CCR, TAGGED, DATA],
        msgs: 4,
        rounds: 4,
        drain: true,
        ..C
    });
}
fn c_auth() {
    cflow::run(&Cfg {
        kinds: &[Kind::Auth],
        cmds: 1,
        classes: &[CCR, TAGGED],
        msgs: 2,
        user: 2,
        calls: 1,
        rounds: 6,
        ..C
    });
}
fn c_auth_long() {
    cflow::run(&Cfg {
        kinds: &[Kind::Auth, Kind::Noop],
        cmds: 2,
        classes: &[CCR, TAGGED],
        msgs: 4,
        user: 3,
        calls: 1,
        rounds: 5,
        drain: true,
        ..C
    });
}
fn c_idle() {
    cflow::run(&Cfg {
        kinds: &[Kind::Idle],
        cmds: 1,
        classes: &[CCR, TAGGED],
        msgs: 2,
        user: 2,
        calls: 2,
        rounds: 6,
        ..C
    });
}
fn c_idle_long() {
    cflow::run(&Cfg {
        kinds: &[Kind::Idle, Kind::Noop],
        cmds: 2,
        classes: &[CCR, TAGGED, DATA],
        msgs: 3,
        user: 2,
        calls: 2,
        rounds: 5,
        drain: true,
        ..C
    });
}
fn c_resp() {
    cflow::run(&Cfg {
        kinds: &[Kind::Model(SYNC1), Kind::Auth, Kind::Idle],
        cmds: 1,
        classes: &[BAD, CCR, TAGGED, UNTAGGED, BYE, DATA],
        msgs: 3,
        rounds: 4,
        ..C
    });
}
fn c_mixed() {
    cflow::run(&Cfg {
        kinds: &[Kind::Model(SYNC1), Kind::Auth, Kind::Idle],
        cmds: 2,
        classes: &[CCR, TAGGED],
        msgs: 3,
        user: 2,
        calls: 3,
        rounds: 4,
        drain: true,
        ..C
    });
}

fn c_frame_greeting() {
    frame::client(&[], 6, nd::flip());
}
fn c_frame() {
    frame::client(&[b'g', 0x42, b'\r', b'\n'], 6, false);
}
fn c_frame_relaxed() {
    frame::client(&[b'g', 0x42, b'\n'], 5, true);
}
const S: frame::ServerCfg = frame::ServerCfg { n: 6, relaxed: false, max_literal: 1, max_command: 100, flows: false };
fn s_frame() {
    frame::server(&S);
}
fn s_frame_relaxed() {
    frame::server(&frame::ServerCfg { n: 5, relaxed: true, ..S });
}
fn s_frame_max() {
    let max = 1 + nd::choose(6) as u32;
    frame::server(&frame::ServerCfg { relaxed: nd::flip(), max_literal: nd::choose(3) as u32, max_command: max, n: 5, ..S });
}

const SF: sflow::Cfg = sflow::Cfg {
    kinds: &[],
    resps: 0,
    first: &[],
    classes: &[],
    msgs: 0,
    user: 0,
    calls: &[],
    rounds: 0,
    drain: false,
    greeted: true,
    max_literal: 1,
    max_command: 100,
    relaxed: false,
    wide: false,
};
/// All kinds of responses, wherever a response can be given.
fn s_kinds() {
    let first: &'static [u8] = [&[] as &[u8], &[sflow::AUTH], &[sflow::IDLE]][nd::choose(3) as usize];
    sflow::run(&sflow::Cfg {
        kinds: &[Resp::Data, Resp::Status, Resp::Ccr],
        resps: 1 + first.is_empty() as u8,
        first,
        classes: &[sflow::MODEL],
        msgs: 1 + !first.is_empty() as u8,
        user: 1,
        calls: &[0, 1, 2, 3],
        rounds: 4,
        wide: true,
        ..SF
    });
}
use sflow::Resp;
fn s_any() {
    sflow::run(&sflow::Cfg {
        kinds: &[Resp::Any, Resp::Status, Resp::Ccr],
        resps: 2,
        classes: &[sflow::MODEL],
        msgs: 1,
        rounds: 4,
        wide: true,
        greeted: false,
        ..SF
    });
}
fn s_order() {
    sflow::run(&sflow::Cfg {
        kinds: &[Resp::Data, Resp::DataLiteral, Resp::Status, Resp::Ccr],
        resps: 3,
        classes: &[sflow::MISC, sflow::LITERAL],
        msgs: 1,
        rounds: 5,
        greeted: false,
        ..SF
    });
}
fn s_literal() {
    sflow::run(&sflow::Cfg {
        kinds: &[Resp::Data],
        resps: 2,
        classes: &[sflow::MODEL, sflow::LITERAL],
        msgs: 3,
        rounds: 6,
        ..SF
    });
}
fn s_auth() {
    sflow::run(&sflow::Cfg {
        kinds: &[Resp::Data],
        resps: 0,
        classes: &[sflow::AUTH, sflow::MODEL],
        msgs: 3,
        user: 2,
        calls: &[0, 1],
        rounds: 6,
        ..SF
    });
}
fn s_idle() {
    sflow::run(&sflow::Cfg {
        kinds: &[Resp::Data],
        resps: 0,
        classes: &[sflow::IDLE, sflow::MODEL],
        msgs: 3,
        user: 2,
        calls: &[2, 3],
        rounds: 6,
        ..SF
    });
}

fn pair_lit() {
    use pair::Kind;
    pair::run(&pair::Cfg {
        kinds: &[Kind::Model(SYNC1), Kind::Model(SYNC_SYNC), Kind::Model(NONSYNC_SYNC), Kind::Model(SYNC1_EMPTY), Kind::Noop],
        cmds: 2,
        max_literal: 2,
        extra: 1,
        turns: 6,
        cuts: 1,
        auth_rounds: 0,
        ..pair::FEW
    });
}
fn pair_flows() {
    use pair::Kind;
    pair::run(&pair::Cfg {
        kinds: &[Kind::Model(SYNC1), Kind::Auth, Kind::Idle, Kind::Noop],
        cmds: 2,
        max_literal: 1,
        extra: 1,
        turns: 6,
        cuts: 0,
        auth_rounds: 2,
        ..pair::FEW
    });
}
fn h_seq() {
    handles::sequential(2, 2);
}
fn h_conc() {
    handles::concurrent(2);
}


/// `n` messages with at most `lits` literals each, cut in at most `cuts` places.
fn client_messages(n: usize, lits: u8, relaxed: bool, cuts: u8) {
    let mut s = cflow::greeting();
    let pre = s.len();
    s.extend(frame::messages(n, lits, false, relaxed, 3));
    frame::client_stream(s, pre, relaxed, frame::Cuts::AtMost(cuts));
}
fn server_messages(n: usize, lits: u8, cuts: u8, cfg: frame::ServerCfg) {
    let s = frame::messages(n, lits, true, cfg.relaxed, 3);
    frame::server_stream(s, &cfg, frame::Cuts::AtMost(cuts));
}
fn c_stream() {
    if nd::flip() {
        client_messages(1, 2, nd::flip(), 2)
    } else {
        client_messages(2, 1, false, 1)
    }
}
fn c_stream_t() {
    if nd::flip() {
        client_messages(1, 3, nd::flip(), 2)
    } else {
        client_messages(2, 2, nd::flip(), 1)
    }
}
fn s_stream() {
    if nd::flip() {
        server_messages(1, 2, 1, frame::ServerCfg { max_literal: 1 + nd::choose(2) as u32, ..S })
    } else {
        server_messages(2, 1, 0, frame::ServerCfg { max_literal: 1, ..S })
    }
}
fn s_stream_t() {
    if nd::flip() {
        server_messages(1, 3, 2, frame::ServerCfg { max_literal: 1 + nd::choose(2) as u32, ..S })
    } else {
        server_messages(2, 2, 1, frame::ServerCfg { max_literal: 1 + nd::choose(2) as u32, ..S })
    }
}
fn s_stream_relaxed() {
    server_messages(1, 2, 1, frame::ServerCfg { max_literal: 2, relaxed: true, ..S })
}
fn s_stream_max() {
    let max_command = 1 + nd::choose(12) as u32;
    server_messages(1, 2, 1, frame::ServerCfg { max_literal: 2, max_command, ..S })
}
fn s_stream_max_t() {
    let max_command = 1 + nd::choose(14) as u32;
    let n = 1 + nd::choose(2);
    server_messages(n as usize, 3 - n, 2, frame::ServerCfg { max_literal: 2, max_command, ..S })
}
fn s_frame_max_t() {
    let max = 1 + nd::choose(8) as u32;
    frame::server(&frame::ServerCfg { relaxed: nd::flip(), max_literal: nd::choose(3) as u32, max_command: max, n: 7, ..S });
}
fn s_frame_t() {
    frame::server(&frame::ServerCfg { relaxed: nd::flip(), n: 8, ..S });
}
fn c_frame_t() {
    frame::client(&[b'g', 0x42, b'\r', b'\n'], 8, nd::flip());
}
fn c_frame_greeting_t() {
    frame::client(&[], 8, nd::flip());
}
fn c_literal_mid() {
    cflow::run(&Cfg {
        kinds: &[Kind::Model(SYNC1), Kind::Model(NONSYNC_SYNC), Kind::Model(SYNC_NONSYNC), Kind::Model(SYNC1_EMPTY)],
        cmds: 2,
        classes: &[CCR, TAGGED],
        msgs: 3,
        rounds: 4,
        drain: true,
        ..C
    });
}
fn c_auth_mid() {
    cflow::run(&Cfg {
        kinds: &[Kind::Auth],
        cmds: 1,
        classes: &[CCR, TAGGED],
        msgs: 4,
        user: 2,
        calls: 1,
        rounds: 4,
        drain: true,
        ..C
    });
}
fn c_auth_queue() {
    cflow::run(&Cfg {
        kinds: &[Kind::Auth, Kind::Noop],
        cmds: 3,
        classes: &[CCR, TAGGED],
        msgs: 3,
        user: 2,
        calls: 1,
        rounds: 3,
        drain: true,
        ..C
    });
}
fn c_mixed_q() {
    cflow::run(&Cfg {
        kinds: &[Kind::Model(SYNC1), Kind::Auth, Kind::Idle],
        cmds: 2,
        classes: &[CCR, TAGGED],
        msgs: 3,
        user: 2,
        calls: 3,
        rounds: 3,
        drain: true,
        ..C
    });
}
fn c_resp_t() {
    cflow::run(&Cfg {
        kinds: &[Kind::Model(SYNC1), Kind::Auth, Kind::Idle],
        cmds: 2,
        classes: &[BAD, CCR, TAGGED, UNTAGGED, BYE, DATA],
        msgs: 3,
        rounds: 4,
        ..C
    });
}
fn s_order_t() {
    sflow::run(&sflow::Cfg {
        kinds: &[Resp::Data, Resp::DataLiteral, Resp::Status, Resp::Ccr],
        resps: 4,
        classes: &[sflow::MISC, sflow::LITERAL, sflow::BAD],
        msgs: 2,
        rounds: 5,
        greeted: false,
        ..SF
    });
}
fn s_literal_t() {
    sflow::run(&sflow::Cfg {
        kinds: &[Resp::Data, Resp::Status],
        resps: 2,
        classes: &[sflow::MODEL, sflow::LITERAL],
        msgs: 4,
        rounds: 6,
        ..SF
    });
}
fn s_auth_t() {
    sflow::run(&sflow::Cfg {
        kinds: &[Resp::Data],
        resps: 1,
        classes: &[sflow::AUTH, sflow::MODEL, sflow::LITERAL, sflow::BAD],
        msgs: 4,
        user: 3,
        calls: &[0, 1],
        rounds: 5,
        ..SF
    });
}
fn s_idle_t() {
    sflow::run(&sflow::Cfg {
        kinds: &[Resp::Data],
        resps: 1,
        classes: &[sflow::IDLE, sflow::MODEL, sflow::LITERAL, sflow::BAD],
        msgs: 4,
        user: 3,
        calls: &[2, 3],
        rounds: 5,
        ..SF
    });
}
fn s_mixed_t() {
    sflow::run(&sflow::Cfg {
        kinds: &[Resp::Data],
        resps: 1,
        classes: &[sflow::AUTH, sflow::IDLE, sflow::MODEL, sflow::LITERAL],
        msgs: 3,
        user: 3,
        calls: &[0, 1, 2, 3],
        rounds: 5,
        ..SF
    });
}
fn h_conc3() {
    handles::concurrent(3);
}
fn h_seq_t() {
    handles::sequential(3, 3);
}
fn pair_lit_t() {
    use pair::Kind;
    pair::run(&pair::Cfg {
        kinds: &[Kind::Model(SYNC1), Kind::Model(SYNC_SYNC), Kind::Model(NONSYNC_SYNC), Kind::Model(SYNC1_EMPTY), Kind::Noop],
        cmds: 2,
        max_literal: 2,
        extra: 2,
        turns: 8,
        cuts: 2,
        auth_rounds: 0,
        ..pair::FEW
    });
}
fn pair_flows_t() {
    use pair::Kind;
    pair::run(&pair::Cfg {
        kinds: &[Kind::Model(SYNC1), Kind::Auth, Kind::Idle, Kind::Noop],
        cmds: 3,
        max_literal: 1,
        extra: 2,
        turns: 7,
        cuts: 1,
        auth_rounds: 2,
        ..pair::FEW
    });
}
fn c_scale() {
    scale::client();
}
fn s_scale() {
    scale::server();
}
fn pair_scale() {
    scale::pair();
}
fn h_scale() {
    handles::many(66_000);
}
fn s_texts() {
    sflow::texts();
}
/// AUTHENTICATE or IDLE, then arbitrary bytes in pieces and flow calls, with a tight size limit.
fn flow_bytes(msgs: u8, calls: u8, rounds: u8, max: u32, relaxed: bool) {
    sflow::run(&sflow::Cfg {
        first: &[sflow::AUTH, sflow::IDLE],
        classes: &[sflow::RAW],
        msgs,
        user: calls,
        calls: &[1, 2, 3],
        rounds,
        drain: true,
        max_command: max,
        relaxed,
        ..SF
    });
}
fn s_flow_bytes() {
    flow_bytes(3, 2, 3, 4, false);
}
/// The same where a bare LF ends a line.
fn s_flow_relaxed() {
    flow_bytes(2, 2, 3, 4, true);
}
fn s_flow_relaxed_t() {
    flow_bytes(3, 2, 3, 4, true);
}
fn s_flow_bytes_t() {
    flow_bytes(4, 2, 5, 4 + nd::choose(2) as u32, false);
}
fn s_mixed() {
    sflow::run(&sflow::Cfg {
        kinds: &[Resp::Data],
        resps: 1,
        classes: &[sflow::AUTH, sflow::IDLE, sflow::MODEL],
        msgs: 2,
        user: 2,
        calls: &[0, 1, 2, 3],
        rounds: 5,
        ..SF
    });
}
fn s_bad() {
    sflow::run(&sflow::Cfg {
        kinds: &[Resp::Data],
        resps: 1,
        classes: &[sflow::BAD, sflow::AUTH, sflow::IDLE, sflow::LITERAL],
        msgs: 3,
        user: 2,
        calls: &[1, 2],
        rounds: 4,
        drain: true,
        ..SF
    });
}
fn s_secrets() {
    secrets::run_server();
}
fn c_secrets() {
    secrets::run_client();
}

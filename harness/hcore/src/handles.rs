//! Handles are unique.
use crate::frame;
use imap_codec::imap_types::{
    command::{Command, CommandBody},
    core::Tag,
    model::Raw,
    response::*,
};
use std::hash::{Hash, Hasher};
use imap_next::{
    client::{Client, CommandHandle, Options},
    server::{self, ResponseHandle, Server},
};

fn commands(c: &mut Client, n: u8) -> Vec<CommandHandle> {
    (0..n)
        .map(|_| c.enqueue_command(Command { tag: Tag::model(0), body: CommandBody::Noop }))
        .collect()
}
/// The three ways of enqueuing share one sequence of handles.
fn responses(s: &mut Server, n: u8) -> Vec<ResponseHandle> {
    (0..n)
        .map(|_| match nd::choose(3) {
            0 => s.enqueue_data(Data::Model(Raw::one(1))),
            1 => s.enqueue_status(Status::Bye(Bye {
                code: None,
                text: imap_codec::imap_types::core::Text::model(Raw::one(1)),
            })),
            _ => s.enqueue_continuation_request(CommandContinuationRequest::Base64(Raw::one(1))),
        })
        .collect()
}
fn distinct<H: PartialEq>(all: &[H]) {
    for i in 0..all.len() {
        for j in 0..i {
            nd::check(all[i] != all[j], "the same handle was given out twice");
        }
    }
}

/// Several clients and servers, created and used in any order.
pub fn sequential(gens: u8, per: u8) {
    let mut clients: Vec<Client> = Vec::new();
    let mut servers: Vec<Server> = Vec::new();
    let mut ch = Vec::new();
    let mut rh = Vec::new();
    for _ in 0..gens {
        // Other generators may be created in between, and dropped.
        if nd::flip() {
            drop(Client::new(Options::default()));
        }
        if nd::flip() {
            drop(Server::new(server::Options::default(), frame::greeting()));
        }
        clients.push(Client::new(Options::default()));
        servers.push(Server::new(server::Options::default(), frame::greeting()));
    }
    for _ in 0..per {
        let i = nd::choose(gens) as usize;
        ch.extend(commands(&mut clients[i], 2));
        let i = nd::choose(gens) as usize;
        rh.extend(responses(&mut servers[i], 2));
    }
    distinct(&ch);
    distinct(&rh);
    nd::cover(1);
}

static mut CH: [Option<[CommandHandle; 2]>; 4] = [None; 4];
static mut RH: [Option<[ResponseHandle; 2]>; 4] = [None; 4];
extern "C" fn worker(i: usize) {
    // What the threads do apart from the code under test is private to each.
    let mut c = Client::new(Options::default());
    let h = commands(&mut c, 2);
    let mut s = Server::new(server::Options::default(), frame::greeting());
    let r = [
        s.enqueue_data(Data::Model(Raw::one(1))),
        s.enqueue_data(Data::Model(Raw::one(2))),
    ];
    unsafe {
        CH[i] = Some([h[0], h[1]]);
        RH[i] = Some(r);
    }
}
/// Clients and servers created by several threads at once, in every interleaving.
pub fn concurrent(threads: usize) {
    let ts: Vec<u64> = (1..threads).map(|i| nd::spawn(worker, i)).collect();
    worker(0);
    for t in ts {
        nd::join(t);
    }
    let (mut ch, mut rh) = (Vec::new(), Vec::new());
    for i in 0..threads {
        unsafe {
            ch.extend(CH[i].unwrap());
            rh.extend(RH[i].unwrap());
        }
    }
    distinct(&ch);
    distinct(&rh);
    nd::cover(2);
}

/// Looks only at handles with the same hash value.
fn distinct_many<H: PartialEq + Hash>(all: &[H]) {
    const N: usize = 1 << 16;
    let mut table: Vec<Vec<usize>> = Vec::new();
    table.resize_with(N, Vec::new);
    for (i, x) in all.iter().enumerate() {
        let mut h = Bytes(0);
        x.hash(&mut h);
        let slot = &mut table[h.finish() as usize % N];
        for j in slot.iter() {
            nd::check(all[*j] != *x, "the same handle was given out twice");
        }
        slot.push(i);
    }
}
struct Bytes(u64);
impl Hasher for Bytes {
    fn finish(&self) -> u64 {
        self.0 ^ self.0 >> 29
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
        }
    }
}

/// Many clients and servers, or one of each with many handles.
pub fn many(n: usize) {
    let mut ch = Vec::with_capacity(n);
    let mut rh = Vec::with_capacity(n);
    let mut c = Client::new(Options::default());
    let mut s = Server::new(server::Options::default(), frame::greeting());
    let gens = nd::flip();
    for _ in 0..n {
        ch.extend(commands(&mut c, 1));
        rh.push(s.enqueue_data(Data::Model(Raw::one(1))));
        if gens {
            c = Client::new(Options::default());
            s = Server::new(server::Options::default(), frame::greeting());
        }
    }
    distinct_many(&ch);
    distinct_many(&rh);
    nd::cover(1);
}

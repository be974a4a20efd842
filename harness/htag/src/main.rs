//! Tags never repeat, are valid, and cannot be predicted.
use imap_types::core::Tag;
use tag_generator::TagGenerator;

nd::harnesses!(tags, tags_many, tags_threads, tags_random, tags_scale, tags_t, tags_threads_t);

fn equal(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
fn distinct(all: &[Tag<'static>]) {
    for i in 0..all.len() {
        for j in 0..i {
            nd::check(!equal(all[i].as_ref(), all[j].as_ref()), "the same tag was generated twice");
        }
    }
}
fn valid(t: &Tag<'_>) {
    let mut bad = t.as_ref().is_empty();
    for b in t.as_ref().as_bytes() {
        let alpha = (*b >= b'a') & (*b <= b'z') | (*b >= b'A') & (*b <= b'Z') | (*b >= b'0') & (*b <= b'9');
        let other = (*b > b' ') & (*b < 0x7f) & !b"(){%*\"\\+".contains(b);
        bad |= !(alpha | other);
    }
    nd::check(!bad, "not a valid tag");
}

/// Generators created at any time, used (and dropped) in any order.
fn history(gens: u8, uses: u8) {
    let mut all = Vec::new();
    let mut g = vec![TagGenerator::new()];
    for _ in 0..uses {
        match nd::choose(3) {
            0 if g.len() < gens as usize => {
                g.push(TagGenerator::new());
                nd::cover(2);
            }
            1 if g.len() > 1 => {
                g.remove(nd::choose(g.len() as u8) as usize);
                nd::cover(3);
            }
            _ => {}
        }
        let i = nd::choose(g.len() as u8) as usize;
        let t = g[i].generate();
        valid(&t);
        all.push(t);
    }
    distinct(&all);
    nd::cover(1);
}
fn tags() {
    history(3, 5);
}
fn tags_t() {
    history(4, 7);
}
/// More than ten generators, one of them (any) with more than ten tags, next to all others.
fn tags_many() {
    let n = 13;
    let mut g: Vec<TagGenerator> = (0..n).map(|_| TagGenerator::new()).collect();
    let i = nd::choose(n) as usize;
    let mut all: Vec<_> = (0..13).map(|_| g[i].generate()).collect();
    for (k, x) in g.iter_mut().enumerate() {
        if k != i {
            all.push(x.generate());
            all.push(x.generate());
        }
    }
    distinct(&all);
    nd::cover(1);
}

/// As many as no small counter can number, and nothing random to tell them apart.
fn tags_scale() {
    rand::drawn().fixed = Some(b'7');
    let mut all = std::collections::BTreeSet::new();
    let mut add = |t: Tag<'static>| {
        valid(&t);
        nd::check(all.insert(t.as_ref().as_bytes().to_vec()), "the same tag was generated twice");
    };
    let mut old = TagGenerator::new();
    add(old.generate());
    match nd::choose(2) {
        0 => {
            for _ in 0..66_000 {
                add(old.generate());
            }
            add(TagGenerator::new().generate());
        }
        _ => {
            for _ in 0..66_000 {
                add(TagGenerator::new().generate());
            }
            add(old.generate());
        }
    }
    nd::cover(1);
}

const PER: usize = 3;
static mut TAGS: [Option<[Tag<'static>; PER]>; 4] = [const { None }; 4];
extern "C" fn worker(i: usize) {
    let (mut g, mut h) = (TagGenerator::new(), TagGenerator::new());
    let t = [g.generate(), h.generate(), g.generate()];
    unsafe { TAGS[i] = Some(t) };
}
#[allow(static_mut_refs)]
fn threads(n: usize) {
    let mut all = Vec::new();
    let mut first = TagGenerator::new();
    all.push(first.generate());
    let ids: Vec<u64> = (0..n).map(|i| nd::spawn(worker, i)).collect();
    all.push(TagGenerator::new().generate());
    all.push(first.generate());
    all.push(TagGenerator::new().generate());
    for i in ids {
        nd::join(i);
    }
    for i in 0..n {
        all.extend(unsafe { TAGS[i].take() }.unwrap());
    }
    distinct(&all);
    nd::cover(1);
}
fn tags_threads() {
    threads(2);
}
fn tags_threads_t() {
    threads(3);
}

/// Every tag contains randomness of its own: at least 40 bits are drawn for it, and alphanumeric
/// characters that are drawn become part of it as they are.
fn tags_random() {
    let mut g = TagGenerator::new();
    for _ in 0..3 {
        let d = rand::drawn();
        (d.on, d.bits) = (true, 0);
        d.chars.clear();
        let t = g.generate();
        let d = rand::drawn();
        nd::check(d.bits >= 40, "a tag without enough randomness of its own");
        let b = t.as_ref().as_bytes();
        let (n, c) = (b.len(), d.chars.len());
        let mut found = c == 0;
        for start in 0..=n.saturating_sub(c) {
            if start + c > n {
                break;
            }
            let mut d0 = 0;
            for k in 0..c {
                d0 |= b[start + k] ^ d.chars[k];
            }
            found |= d0 == 0;
        }
        nd::check(found, "the random characters are not part of the tag");
    }
    nd::cover(1);
}

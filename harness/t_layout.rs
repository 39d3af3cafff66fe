//! C14, C15, C22, C24: on-disc structures, title keys, partition tables, extents of the system files.
use crate::disk::Disk;
use crate::img::*;
use crate::sv;
use binrw::{BinReaderExt, BinWriterExt};
use disc_riider::structs::*;
use disc_riider::*;
use std::io::{Read, Seek, SeekFrom};

fn u16b(b: &[u8], o: usize) -> u16 {
    (b[o] as u16) << 8 | b[o + 1] as u16
}
fn u32b(b: &[u8], o: usize) -> u32 {
    (u16b(b, o) as u32) << 16 | u16b(b, o + 2) as u32
}
fn u64b(b: &[u8], o: usize) -> u64 {
    (u32b(b, o) as u64) << 32 | u32b(b, o + 4) as u64
}
fn sh(b: &[u8], o: usize) -> u64 {
    u32b(b, o) as u64 * 4
}
fn eq16(x: u16, b: &[u8], o: usize) {
    sv::check(x == u16b(b, o), "a two-byte field is read from its place");
}
fn eq32(x: u32, b: &[u8], o: usize) {
    sv::check(x == u32b(b, o), "a four-byte field is read from its place");
}
fn eqb(x: &[u8], b: &[u8], o: usize, n: usize) {
    sv::check(x.len() == n, "a block of bytes has its length");
    if x.len() == n {
        sv::check_eq(x, &b[o..o + n], "a block of bytes is read from its place");
    }
}
/// symbolic bytes with a concrete block zeroed
fn gaps(b: &mut [u8], gs: &[(usize, usize)]) {
    for g in gs {
        b[g.0..g.1].fill(0);
    }
}
/// what the value writes is exactly these bytes (unused gaps are zero)
macro_rules! writes {
    ($v:expr, $b:expr) => {{
        let mut o = Disk::new($b.len() + 0x80);
        // what was there before must not matter
        let r = o.write_be($v);
        sv::check(r.is_ok(), "the value can be written");
        if r.is_ok() {
            sv::check(o.len as usize == $b.len() && o.pos == o.len, "it takes exactly its size");
            if o.len as usize == $b.len() {
                sv::check_eq(&o.data[..$b.len()], &$b, "every field is written at its place");
                sv::reach("written");
            }
        }
    }};
}

const KEYS: [[u8; 16]; 2] = [
    [0xeb, 0xe4, 0x2a, 0x22, 0x5e, 0x85, 0x93, 0xe4, 0x48, 0xd9, 0xc5, 0x45, 0x73, 0x81, 0xaa, 0xf7],
    [0x63, 0xb8, 0x2b, 0xb4, 0xf4, 0x61, 0x4e, 0x2e, 0x13, 0xf2, 0xfe, 0xfb, 0xba, 0x4c, 0x9b, 0x7e],
];
const SIGS: [u32; 3] = [0x10000, 0x10001, 0x10002];
fn sig_no(s: SigType) -> u32 {
    match s {
        SigType::Rsa4096 => 0x10000,
        SigType::Rsa2048 => 0x10001,
        SigType::EllipticalCurve => 0x10002,
    }
}

/// a = length of the title + 100 * kind (0: ASCII, 1: ends with a two-byte, 2: three-byte, 3: four-byte character)
#[no_mangle]
pub extern "C" fn h_lay_header(a: u64) {
    let (n, kind) = ((a % 100) as usize, a / 100);
    let mut b = sv::bytes("header", 0x440);
    let mut c = [0u8; 64];
    sv::arr("title", &mut c);
    for i in 0..64 {
        if i >= n {
            // after the end of the title anything may follow the zero byte
            if i == n {
                c[i] = 0;
            }
        } else {
            sv::assume(c[i] > 0 && c[i] < 0x80);
        }
    }
    if kind > 0 {
        let k = kind as usize + 1;
        let x = sv::u32v("char");
        let range = [(0x80, 0x7ff), (0x800, 0xd7ff), (0x10000, 0x10ffff)][kind as usize - 1];
        sv::assume(x >= range.0 && x <= range.1);
        let mut e = [0u8; 4];
        char::from_u32(x).unwrap_or('x').encode_utf8(&mut e);
        c[n - k..n].copy_from_slice(&e[..k]);
    }
    b[0x20..0x60].copy_from_slice(&c);
    let mut d = Disk::from(b.clone());
    let h = match d.read_be::<DiscHeader>() {
        Ok(h) => h,
        Err(_) => return sv::check(false, "a disc header can be read"),
    };
    sv::check(d.pos == 0x440, "the disc header takes 0x440 bytes");
    eqb(&h.game_id, &b, 0, 6);
    sv::check(h.disc_num == b[6] && h.disc_version == b[7] && h.audio_streaming == b[8] && h.audio_stream_buf_size == b[9], "single bytes are read from their places");
    eq32(h.wii_magic, &b, 0x18);
    eq32(h.gcn_magic, &b, 0x1c);
    eqb(h.game_title.as_bytes(), &b, 0x20, n);
    sv::check(h.disable_hash_verification == b[0x60] && h.disable_disc_enc == b[0x61], "flags are read from their places");
    eq32(h.debug_mon_off, &b, 0x400);
    eq32(h.debug_load_addr, &b, 0x404);
    sv::check(*h.dol_off == sh(&b, 0x420) && *h.fst_off == sh(&b, 0x424) && *h.fst_sz == sh(&b, 0x428) && *h.fst_max_sz == sh(&b, 0x42c), "offsets and sizes are stored in units of four bytes");
    eq32(h.fst_memory_address, &b, 0x430);
    eq32(h.user_position, &b, 0x434);
    eq32(h.user_sz, &b, 0x438);
    gaps(&mut b, &[(0xa, 0x18), (0x20 + n, 0x60), (0x62, 0x400), (0x408, 0x420), (0x43c, 0x440)]);
    writes!(&h, b);
}

/// a title of a bytes that cannot be stored is refused
#[no_mangle]
pub extern "C" fn h_lay_title(a: u64) {
    let mut d = Disk::from(sv::bytes("header", 0x440));
    d.data[0x20] = 0;
    let mut h = match d.read_be::<DiscHeader>() {
        Ok(h) => h,
        Err(_) => return sv::check(false, "a disc header can be read"),
    };
    // two characters of the title are symbolic
    let mut v = vec![b'x'; a as usize];
    for i in [0, a as usize - 1] {
        v[i] = sv::range("char", b'a' as u64, b'z' as u64) as u8;
    }
    h.game_title = String::from_utf8(v).unwrap_or_default();
    let mut o = Disk::new(0x480);
    match o.write_be(&h) {
        Ok(()) => {
            sv::check(o.len == 0x440 && a <= 64, "the disc header takes 0x440 bytes whatever the title");
            sv::reach("written");
        }
        Err(_) => {
            sv::check(a > 64, "a title that fits can be written");
            sv::reach("refused");
        }
    }
}

fn check_ticket(t: &Ticket, b: &[u8], key: &[u8; 16]) {
    sv::check(sig_no(t.sig_type) == u32b(b, 0), "the signature type is read");
    eqb(&t.sig, b, 4, 0x100);
    eqb(&t.sig_issuer, b, 0x140, 0x40);
    eqb(&t.ecdh, b, 0x180, 0x3c);
    eqb(&t.ticket_id, b, 0x1d0, 8);
    eqb(&t.console_id, b, 0x1d8, 4);
    eqb(&t.title_id, b, 0x1dc, 8);
    eq16(t.unk, b, 0x1e4);
    eq16(t.ticket_version, b, 0x1e6);
    eq32(t.permitted_titles_mask, b, 0x1e8);
    eq32(t.permit_mask, b, 0x1ec);
    sv::check(t.title_export_allowed == b[0x1f0] && t.common_key_idx == b[0x1f1], "single bytes are read from their places");
    eqb(&t.content_access_permissions, b, 0x222, 0x40);
    eq16(t.unk2, b, 0x262);
    for i in 0..8 {
        eq32(t.time_limits[i].enable_time_limit, b, 0x264 + 8 * i);
        eq32(t.time_limits[i].time_limit, b, 0x268 + 8 * i);
    }
    sv::check_eq(&t.title_key, key, "the title key is unwrapped with the common key and the title id");
}
const TICKET_GAPS: [(usize, usize); 4] = [(0x104, 0x140), (0x1bc, 0x1bf), (0x1cf, 0x1d0), (0x1f2, 0x222)];

/// a symbolic ticket: its bytes and its title key
fn ticket(b: &mut [u8]) -> [u8; 16] {
    let k = sv::choose("common", 2) as usize;
    be32(b, 0, SIGS[sv::choose("sig", 3) as usize]);
    b[0x1f1] = k as u8;
    let mut key = [0u8; 16];
    sv::arr("key", &mut key);
    let mut e = key;
    let mut iv = [0u8; 16];
    iv[..8].copy_from_slice(&b[0x1dc..0x1e4]);
    cbc_enc(&KEYS[k], &iv, &mut e);
    b[0x1bf..0x1cf].copy_from_slice(&e);
    key
}

/// a = 0: ticket, 1: partition header
#[no_mangle]
pub extern "C" fn h_lay_ticket(a: u64) {
    let n = if a == 0 { 0x2a4 } else { 0x2c0 };
    let mut b = sv::bytes("ticket", n);
    let key = ticket(&mut b);
    let mut d = Disk::from(b.clone());
    if a == 0 {
        let t = match d.read_be::<Ticket>() {
            Ok(t) => t,
            Err(_) => return sv::check(false, "a ticket can be read"),
        };
        sv::check(d.pos == 0x2a4, "the ticket takes 0x2a4 bytes");
        check_ticket(&t, &b, &key);
        gaps(&mut b, &TICKET_GAPS);
        writes!(&t, b);
    } else {
        let h = match d.read_be::<WiiPartitionHeader>() {
            Ok(t) => t,
            Err(_) => return sv::check(false, "a partition header can be read"),
        };
        sv::check(d.pos == 0x2c0, "the partition header takes 0x2c0 bytes");
        check_ticket(&h.ticket, &b, &key);
        eq32(h.tmd_size, &b, 0x2a4);
        eq32(h.cert_chain_size, &b, 0x2ac);
        sv::check(
            *h.tmd_off == sh(&b, 0x2a8) && *h.cert_chain_off == sh(&b, 0x2b0) && *h.global_hash_table_off == sh(&b, 0x2b4) && *h.data_off == sh(&b, 0x2b8) && *h.data_size == sh(&b, 0x2bc),
            "offsets and sizes are stored in units of four bytes",
        );
        gaps(&mut b, &TICKET_GAPS);
        writes!(&h, b);
    }
}

/// changing the key, the title or the common key of a ticket and writing it; a = 1: the common key is unknown
#[no_mangle]
pub extern "C" fn h_lay_rekey(a: u64) {
    let mut b = sv::bytes("ticket", 0x2a4);
    ticket(&mut b);
    let mut d = Disk::from(b.clone());
    let mut t = match d.read_be::<Ticket>() {
        Ok(t) => t,
        Err(_) => return sv::check(false, "a ticket can be read"),
    };
    let mut key = [0u8; 16];
    sv::arr("newkey", &mut key);
    let mut id = [0u8; 8];
    sv::arr("newid", &mut id);
    let k = if a == 1 { sv::range("newcommon", 2, 255) as u8 } else { sv::choose("newcommon", 2) as u8 };
    t.title_key = key;
    t.title_id = id;
    t.common_key_idx = k;
    if a == 1 {
        let mut o = Disk::new(0x300);
        sv::check(o.write_be(&t).is_err(), "an unknown common key is refused");
        b[0x1f1] = k;
        sv::check(Disk::from(b).read_be::<Ticket>().is_err(), "an unknown common key is refused");
        return sv::reach("refused");
    }
    let mut e = key;
    let mut iv = [0u8; 16];
    iv[..8].copy_from_slice(&id);
    cbc_enc(&KEYS[k as usize], &iv, &mut e);
    b[0x1bf..0x1cf].copy_from_slice(&e);
    b[0x1dc..0x1e4].copy_from_slice(&id);
    b[0x1f1] = k;
    gaps(&mut b, &TICKET_GAPS);
    writes!(&t, b);
}

/// a = number of contents
#[no_mangle]
pub extern "C" fn h_lay_tmd(a: u64) {
    let n = a as usize;
    let mut b = sv::bytes("tmd", 0x1e4 + 0x24 * n);
    be32(&mut b, 0, SIGS[sv::choose("sig", 3) as usize]);
    b[0x1de] = 0;
    b[0x1df] = n as u8;
    let mut d = Disk::from(b.clone());
    let t = match d.read_be::<TMD>() {
        Ok(t) => t,
        Err(_) => return sv::check(false, "title metadata can be read"),
    };
    sv::check(d.pos as usize == b.len(), "the metadata takes 0x1e4 bytes plus 0x24 for each content");
    sv::check(sig_no(t.sig_type) == u32b(&b, 0), "the signature type is read");
    eqb(&t.sig, &b, 4, 0x100);
    eqb(&t.sig_issuer, &b, 0x140, 0x40);
    sv::check(t.version == b[0x180] && t.ca_crl_version == b[0x181] && t.signer_crl_version == b[0x182], "single bytes are read from their places");
    eq32(t.ios_id_major, &b, 0x184);
    eq32(t.ios_id_minor, &b, 0x188);
    eq32(t.title_id_major, &b, 0x18c);
    eqb(&t.title_id_minor, &b, 0x190, 4);
    eq32(t.title_type, &b, 0x194);
    eq16(t.group_id, &b, 0x198);
    for i in 0..7 {
        sv::check(t.fakesign_padding[i] == u64b(&b, 0x19a + 8 * i), "an eight-byte field is read from its place");
    }
    eq32(t.access_flags, &b, 0x1d8);
    eq16(t.title_version, &b, 0x1dc);
    eq16(t.boot_idx, &b, 0x1e0);
    sv::check(t.contents.len() == n, "every content is read");
    for (i, c) in t.contents.iter().enumerate() {
        let o = 0x1e4 + 0x24 * i;
        eq32(c.id, &b, o);
        eq16(c.index, &b, o + 4);
        eq16(c.content_type, &b, o + 6);
        sv::check(c.size == u64b(&b, o + 8), "an eight-byte field is read from its place");
        eqb(&c.hash, &b, o + 16, 20);
    }
    gaps(&mut b, &[(0x104, 0x140), (0x183, 0x184), (0x1d2, 0x1d8), (0x1e2, 0x1e4)]);
    writes!(&t, b);
}

/// a = signature type + 10 * key type; 100: a chain of three
#[no_mangle]
pub extern "C" fn h_lay_cert(a: u64) {
    fn make(name: &str, s: usize, k: usize) -> Vec<u8> {
        let (sl, kl) = ([512, 256, 64][s], [512, 256][k]);
        let mut b = sv::bytes(name, 4 + sl + 60 + 64 + 4 + 64 + kl + 8 + 52);
        be32(&mut b, 0, SIGS[s]);
        be32(&mut b, 4 + sl + 60 + 64, k as u32);
        b
    }
    fn verify(c: &Certificate, b: &mut [u8], s: usize, k: usize) {
        let (sl, kl) = ([512, 256, 64][s], [512, 256][k]);
        sv::check(sig_no(c.sig_type) == SIGS[s], "the signature type is read");
        eqb(&c.sig, b, 4, sl);
        let o = 4 + sl + 60;
        eqb(&c.issuer, b, o, 64);
        sv::check((c.key_type == KeyType::Rsa4096) == (k == 0), "the key type is read");
        eqb(&c.subject, b, o + 68, 64);
        eqb(&c.key, b, o + 132, kl);
        eq32(c.modulus, b, o + 132 + kl);
        eq32(c.pub_exp, b, o + 136 + kl);
        gaps(b, &[(4 + sl, o), (o + 140 + kl, o + 192 + kl)]);
    }
    if a < 100 {
        let (s, k) = ((a % 10) as usize, (a / 10) as usize);
        let mut b = make("cert", s, k);
        let mut d = Disk::from(b.clone());
        match d.read_be::<Certificate>() {
            Ok(c) => {
                sv::check(d.pos as usize == b.len(), "a certificate takes what its types say");
                verify(&c, &mut b, s, k);
                writes!(&c, b);
            }
            Err(_) => sv::check(false, "a certificate can be read"),
        }
        return;
    }
    // as found on a disc: the chain of the title authority
    let kinds = [(0, 1), (1, 1), (1, 0)];
    let mut all = Vec::new();
    let mut parts = Vec::new();
    for (i, (s, k)) in kinds.iter().enumerate() {
        let b = make(["cert0", "cert1", "cert2"][i], *s, *k);
        all.extend_from_slice(&b);
        parts.push(b);
    }
    let mut d = Disk::from(all.clone());
    match d.read_be::<[Certificate; 3]>() {
        Ok(c) => {
            sv::check(d.pos as usize == all.len(), "the chain takes what its types say");
            let mut o = 0;
            for i in 0..3 {
                verify(&c[i], &mut parts[i], kinds[i].0, kinds[i].1);
                all[o..o + parts[i].len()].copy_from_slice(&parts[i]);
                o += parts[i].len();
            }
            writes!(&c, all);
        }
        Err(_) => sv::check(false, "a chain of certificates can be read"),
    }
}

/// type codes: only the documented ones; a = 0: partition type, 1: signature type, 2: key type
#[no_mangle]
pub extern "C" fn h_lay_code(a: u64) {
    let x = sv::u32v("code");
    let mut d = Disk::from(x.to_be_bytes().to_vec());
    let mut o = Disk::new(4);
    let mut back = x;
    let known = match a {
        0 => match d.read_be::<WiiPartType>() {
            Ok(t) => {
                back = match t {
                    WiiPartType::Data => 0,
                    WiiPartType::Update => 1,
                    WiiPartType::Channel => 2,
                };
                o.write_be(&t).is_ok()
            }
            Err(_) => false,
        },
        1 => match d.read_be::<SigType>() {
            Ok(t) => {
                back = sig_no(t);
                o.write_be(&t).is_ok()
            }
            Err(_) => false,
        },
        _ => match d.read_be::<KeyType>() {
            Ok(t) => {
                back = if t == KeyType::Rsa4096 { 0 } else { 1 };
                o.write_be(&t).is_ok()
            }
            Err(_) => false,
        },
    };
    let want = match a {
        0 => x < 3,
        1 => x >= 0x10000 && x < 0x10003,
        _ => x < 2,
    };
    sv::check(known == want && back == x, "exactly the documented codes are known");
    if known {
        sv::check(o.len == 4 && u32b(&o.data, 0) == x, "a code is written as it was read");
        sv::reach("known");
    } else {
        sv::reach("unknown");
    }
}

/// the partition list; a = most entries per table + 10 * number of tables that have entries + 100 * mode
/// (1: the image is cut off; 2: unknown types)
#[no_mangle]
pub extern "C" fn h_lay_parts(a: u64) {
    let (most, tables, mode) = (a % 10, a / 10 % 10, a / 100);
    let mut b = vec![0u8; 0x4e020];
    sv::arr("region", &mut b[0x4e000..]);
    let spots = [0x40020usize, 0x40040, 0x4dff8 - 8 * most as usize];
    let mut want: Vec<(u64, u32)> = Vec::new();
    let mut first = sv::choose("first", 5 - tables.min(4));
    if tables == 0 {
        first = 0;
    }
    // what lies at each spot
    for s in spots {
        for i in 0..most as usize {
            be32(&mut b, s + 8 * i, sv::u32v("at"));
            be32(&mut b, s + 8 * i + 4, sv::u32v("type"));
            sv::assume(mode == 2 || u32b(&b, s + 8 * i + 4) < 3);
        }
    }
    let mut bad = false;
    for i in 0..4 {
        let n = if i >= first && i < first + tables { sv::choose("count", most + 1) } else { 0 };
        be32(&mut b, 0x40000 + 8 * i as usize, n as u32);
        let s = spots[if n == 0 {
            0
        } else if tables > 1 {
            ((i - first) % 3) as usize
        } else {
            sv::choose("spot", 3) as usize
        }];
        // an empty table may point anywhere
        be32(&mut b, 0x40004 + 8 * i as usize, if n == 0 { sv::u32v("nowhere") } else { s as u32 >> 2 });
        for j in 0..n as usize {
            let t = u32b(&b, s + 8 * j + 4);
            if t > 2 {
                bad = true;
            }
            want.push((u32b(&b, s + 8 * j) as u64 * 4, t));
        }
    }
    let region: Vec<u8> = b[0x4e000..].to_vec();
    let mut d = Disk::from(b);
    if mode == 1 {
        // a table past the end
        be32(&mut d.data, 0x40000, 1);
        let at = 0x4e020 - 4 * sv::choose("cut", 2) as u32;
        be32(&mut d.data, 0x40004, at >> 2);
        bad = true;
    }
    let iso = match WiiIsoReader::open(d) {
        Ok(x) => x,
        Err(_) => {
            sv::check(bad, "an image with readable tables opens");
            return sv::reach("refused");
        }
    };
    sv::check(!bad, "a table that cannot be read is an error");
    sv::check_eq(iso.get_region(), &region, "the region is the 32 bytes at 0x4e000");
    let p = iso.partitions();
    sv::check(p.len() == want.len(), "every entry is listed and nothing else");
    if p.len() == want.len() {
        for (i, w) in want.iter().enumerate() {
            let t = match p[i].get_type() {
                WiiPartType::Data => 0,
                WiiPartType::Update => 1,
                WiiPartType::Channel => 2,
            };
            sv::check(p[i].get_offset() == w.0 && t == w.1, "the entries are listed in order with offset and type");
        }
        sv::reach(if p.len() > 1 { "several" } else { "listed" });
    }
}

/// extents of the system files; a = 0: boot info, 1: apploader, 2: executable (one section each of text and data),
/// 3: executable (a section ends past what can be represented); + 10 * where the executable is + 100 * which sections
#[no_mangle]
pub extern "C" fn h_lay_extent(a: u64) {
    let (a, spot, sections) = (a % 10, a / 10 % 10, a / 100);
    let mut key = [0u8; 16];
    sv::arr("key", &mut key);
    let hdr = [0u8; 0x400];
    let mut plain = sv::bytes("plain", GDS);
    let dol = [0x2480usize, 0x7bc0, GDS - 0x180][spot as usize];
    let fst = if dol == 0x7bc0 { 0x2460 } else { 0x3000 };
    inner_header(&mut plain, dol as u32, fst as u32, 12);
    empty_fst(&mut plain, fst);
    let mut end = 0x100u64;
    let mut total = 0;
    match a {
        1 => {
            let (x, y) = (sv::u32v("size1"), sv::u32v("size2"));
            be32(&mut plain, 0x2454, x);
            be32(&mut plain, 0x2458, y);
            total = 32 + x as u64 + y as u64;
        }
        2 | 3 => {
            plain[dol..dol + 0xd8].fill(0);
            let (i, j) = match sections as usize {
                k if k < 6 => [(0, 7), (0, 17), (6, 7), (3, 12), (1, 6), (8, 16)][k],
                k => (k - 6, (k - 1) % 18),
            };
            for k in [i, j] {
                let (o, s) = (sv::u32v("offset"), sv::u32v("size"));
                be32(&mut plain, dol + 4 * k, o);
                be32(&mut plain, dol + 0x90 + 4 * k, s);
                if s != 0 {
                    end = end.max(o as u64 + s as u64);
                }
            }
            sv::assume((end > u32::MAX as u64) == (a == 3));
        }
        _ => {}
    }
    // the data area ends after three blocks, or at the end of the group
    let size = if spot == 2 || a == 0 { GDS } else { 3 * BDS };
    let disk = disc(&plain, &key, (size as u32) >> 2, &hdr);
    let mut iso = match WiiIsoReader::open(disk) {
        Ok(x) => x,
        Err(_) => return sv::check(false, "the disc opens"),
    };
    let entry = iso.partitions()[0].clone();
    let mut part = match iso.open_partition(entry) {
        Ok(x) => x,
        Err(_) => return sv::check(false, "the partition opens"),
    };
    let (r, at, len) = match a {
        0 => (part.read_bi2(&mut iso), 0x440, 0x2000),
        1 => (part.read_apploader(&mut iso), 0x2440, total),
        _ => (part.read_dol(&mut iso), dol as u64, end),
    };
    match r {
        Ok(v) => {
            sv::check(a != 3, "a size that overflows is an error");
            let m = len.min(size as u64 - at);
            sv::check(v.len() as u64 == m, "all of it is read, as far as there is data");
            if v.len() as u64 == m {
                sv::check_eq(&v, &plain[at as usize..(at + m) as usize], "the bytes are those of the partition");
            }
            sv::reach("read");
        }
        Err(_) => {
            sv::check(a == 3, "it can be read");
            sv::reach("refused");
        }
    }
}

//! Hand-made disc images: the reader side is checked against these, independently of the builder.
#![allow(dead_code)]
use crate::disk::Disk;
use crate::sv;
use aes::cipher::{block_padding::NoPadding, BlockDecryptMut, BlockEncryptMut, KeyIvInit};
use sha1::{Digest, Sha1};

pub const PART: usize = 0x50000;
pub const DATA: usize = 0x20000;
pub const GDS: usize = 0x1f0000;
pub const BDS: usize = 0x7c00;
pub const GS: usize = 0x200000;

pub fn cbc_enc(key: &[u8; 16], iv: &[u8; 16], buf: &mut [u8]) {
    let n = buf.len();
    cbc::Encryptor::<aes::Aes128>::new(key.into(), iv.into()).encrypt_padded_mut::<NoPadding>(buf, n).unwrap();
}

pub fn be32(b: &mut [u8], off: usize, v: u32) {
    b[off..off + 4].copy_from_slice(&v.to_be_bytes());
}

/// encrypts one group of plain data
pub fn enc_group(plain: &[u8], key: &[u8; 16], hdr: &[u8]) -> Vec<u8> {
    let mut out = vec![0u8; GS];
    for b in 0..64 {
        let blk = &mut out[b * 0x8000..(b + 1) * 0x8000];
        blk[..0x400].copy_from_slice(hdr);
        blk[0x400..].copy_from_slice(&plain[b * BDS..(b + 1) * BDS]);
        let mut iv = [0u8; 16];
        iv.copy_from_slice(&hdr[0x3d0..0x3e0]);
        cbc_enc(key, &iv, &mut blk[0x400..]);
    }
    out
}

/// partition header bytes (0x2c0) for a title key
pub fn part_header(title_key: &[u8; 16], title_id: &[u8; 8], data_size4: u32) -> Vec<u8> {
    let mut h = vec![0u8; 0x2c0];
    be32(&mut h, 0, 0x10001);
    let mut k = *title_key;
    let mut iv = [0u8; 16];
    iv[..8].copy_from_slice(title_id);
    cbc_enc(&disc_riider::COMMON_KEYS[0], &iv, &mut k);
    h[0x1bf..0x1cf].copy_from_slice(&k);
    h[0x1dc..0x1e4].copy_from_slice(title_id);
    be32(&mut h, 0x2a4, 0x208);
    be32(&mut h, 0x2a8, 0x2c0 >> 2);
    be32(&mut h, 0x2b0, 0x4e0 >> 2);
    be32(&mut h, 0x2b4, 0x8000 >> 2);
    be32(&mut h, 0x2b8, (DATA as u32) >> 2);
    be32(&mut h, 0x2bc, data_size4);
    h
}

/// a disc with one data partition holding the given plain groups
pub fn disc(plain: &[u8], key: &[u8; 16], data_size4: u32, hdr: &[u8]) -> Disk {
    let g = plain.len() / GDS;
    let mut d = vec![0u8; PART + DATA + g * GS];
    be32(&mut d, 0x18, 0x5D1C9EA3);
    be32(&mut d, 0x40000, 1);
    be32(&mut d, 0x40004, 0x40020 >> 2);
    be32(&mut d, 0x40020, (PART as u32) >> 2);
    d[PART..PART + 0x2c0].copy_from_slice(&part_header(key, &[0, 1, 0, 0, b'R', b'S', b'V', b'E'], data_size4));
    for i in 0..g {
        let e = enc_group(&plain[i * GDS..(i + 1) * GDS], key, hdr);
        let at = PART + DATA + i * GS;
        d[at..at + GS].copy_from_slice(&e);
    }
    Disk::from(d)
}

/// the shortest valid file system table
pub fn empty_fst(plain: &mut [u8], at: usize) {
    plain[at..at + 12].copy_from_slice(&[1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1]);
}
/// header fields of the partition's inner header; everything else of it is zero
pub fn inner_header(plain: &mut [u8], dol: u32, fst: u32, fst_sz: u32) {
    plain[..0x440].copy_from_slice(&[0; 0x440]);
    be32(plain, 0x420, dol >> 2);
    be32(plain, 0x424, fst >> 2);
    be32(plain, 0x428, fst_sz >> 2);
    be32(plain, 0x42c, fst_sz >> 2);
}

fn dec(key: &[u8; 16], iv: &[u8], buf: &mut [u8]) {
    let _ = cbc::Decryptor::<aes::Aes128>::new(key.into(), iv.into()).decrypt_padded_mut::<NoPadding>(buf).unwrap();
}
fn sha(m: &[u8]) -> Vec<u8> {
    let mut h = Sha1::new();
    h.update(m);
    h.finalize().as_slice().to_vec()
}

/// checks the console's rules on one encrypted group
pub fn verify_group(enc: &[u8], key: &[u8; 16], h3: &[u8]) {
    let mut g = enc.to_vec();
    for b in 0..64usize {
        let blk = &mut g[b * 0x8000..(b + 1) * 0x8000];
        let iv = blk[0x3d0..0x3e0].to_vec();
        dec(key, &iv, &mut blk[0x400..]);
        dec(key, &[0; 16], &mut blk[..0x400]);
    }
    let mut h2 = vec![];
    for s in 0..8usize {
        let mut h1 = vec![];
        for c in 0..8usize {
            let blk = &g[(s * 8 + c) * 0x8000..][..0x8000];
            let mut h0 = vec![];
            for j in 0..31usize {
                h0.extend_from_slice(&sha(&blk[0x400 + j * 0x400..][..0x400]));
            }
            sv::check_eq(&blk[..0x26c], &h0, "each block starts with the hashes of its 31 data chunks");
            sv::check_eq(&blk[0x26c..0x280], &[0; 0x14], "zero padding after the chunk hashes");
            h1.extend_from_slice(&sha(&h0));
        }
        for c in 0..8usize {
            let blk = &g[(s * 8 + c) * 0x8000..][..0x8000];
            sv::check_eq(&blk[0x280..0x320], &h1, "each block holds the hashes of its subgroup's hash lists");
            sv::check_eq(&blk[0x320..0x340], &[0; 0x20], "zero padding after the subgroup hashes");
        }
        h2.extend_from_slice(&sha(&h1));
    }
    for b in 0..64usize {
        let blk = &g[b * 0x8000..][..0x8000];
        sv::check_eq(&blk[0x340..0x3e0], &h2, "each block holds the hashes of the group's subgroup lists");
        sv::check_eq(&blk[0x3e0..0x400], &[0; 0x20], "zero padding after the group hashes");
    }
    sv::check_eq(h3, &sha(&h2), "the global hash table entry is the hash of the subgroup hash list");
}


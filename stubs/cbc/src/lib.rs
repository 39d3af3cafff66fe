//! AES-CBC as a pair of uninterpreted, mutually inverse functions of (key, iv, data), evaluated
//! by the symbolic executor on whole buffers.
#![no_std]
pub use cipher;
use cipher::{
    consts::U1, crypto_common::IvSizeUser, inout::InOut, inout::InOutBuf, Block, BlockBackend, BlockCipher,
    BlockClosure, BlockDecryptMut, BlockEncryptMut, BlockSizeUser, Iv, Key, KeyInit, KeyIvInit, KeySizeUser,
    ParBlocksSizeUser,
};
use core::marker::PhantomData;

extern "C" {
    fn sv_cbc(enc: u64, key: *const u8, iv: *const u8, inp: *const u8, out: *mut u8, n: u64);
}

macro_rules! mode {
    ($name:ident, $tr:ident, $enc:expr, $with:ident, $inout:ident, $be:ident) => {
        #[derive(Clone)]
        pub struct $name<C> {
            key: [u8; 16],
            iv: [u8; 16],
            _c: PhantomData<C>,
        }
        impl<C: BlockSizeUser> BlockSizeUser for $name<C> {
            type BlockSize = C::BlockSize;
        }
        impl<C: BlockSizeUser> IvSizeUser for $name<C> {
            type IvSize = C::BlockSize;
        }
        impl<C: KeySizeUser> KeySizeUser for $name<C> {
            type KeySize = C::KeySize;
        }
        impl<C: BlockCipher + KeyInit> KeyIvInit for $name<C> {
            fn new(key: &Key<Self>, iv: &Iv<Self>) -> Self {
                let mut k = [0; 16];
                k.copy_from_slice(key.as_slice());
                let mut v = [0; 16];
                v.copy_from_slice(iv.as_slice());
                Self { key: k, iv: v, _c: PhantomData }
            }
        }
        impl<C> $name<C> {
            fn run(&mut self, inp: *const u8, out: *mut u8, n: u64) {
                if n == 0 {
                    return;
                }
                let mut next = [0u8; 16];
                unsafe {
                    if !$enc {
                        core::ptr::copy_nonoverlapping(inp.add(n as usize - 16), next.as_mut_ptr(), 16);
                    }
                    sv_cbc($enc as u64, self.key.as_ptr(), self.iv.as_ptr(), inp, out, n);
                    if $enc {
                        core::ptr::copy_nonoverlapping(out.add(n as usize - 16), next.as_mut_ptr(), 16);
                    }
                }
                self.iv = next;
            }
        }
        struct $be<'a, C>(&'a mut $name<C>);
        impl<'a, C: BlockSizeUser> BlockSizeUser for $be<'a, C> {
            type BlockSize = C::BlockSize;
        }
        impl<'a, C: BlockSizeUser> ParBlocksSizeUser for $be<'a, C> {
            type ParBlocksSize = U1;
        }
        impl<'a, C: BlockSizeUser> BlockBackend for $be<'a, C> {
            fn proc_block(&mut self, mut block: InOut<'_, '_, Block<Self>>) {
                let i = block.get_in().as_ptr();
                let o = block.get_out().as_mut_ptr();
                self.0.run(i, o, 16);
            }
        }
        impl<C: BlockSizeUser> $tr for $name<C> {
            fn $with(&mut self, f: impl BlockClosure<BlockSize = Self::BlockSize>) {
                f.call(&mut $be(self))
            }
            fn $inout(&mut self, blocks: InOutBuf<'_, '_, Block<Self>>) {
                let n = blocks.len() as u64 * 16;
                let (i, o) = blocks.into_raw();
                self.run(i as *const u8, o as *mut u8, n);
            }
        }
    };
}
mode!(Encryptor, BlockEncryptMut, true, encrypt_with_backend_mut, encrypt_blocks_inout_mut, EncBackend);
mode!(Decryptor, BlockDecryptMut, false, decrypt_with_backend_mut, decrypt_blocks_inout_mut, DecBackend);

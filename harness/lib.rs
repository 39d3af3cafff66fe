#![allow(dead_code, unused_imports)]
mod disk;
mod img;
mod part;
mod sv;
mod tree;
#[cfg(feature = "extract")]
mod vfs;

macro_rules! group {
    ($feat:literal, $m:ident: $($f:ident),* $(,)?) => {
        #[cfg(feature = $feat)]
        mod $m;
        #[cfg(all(feature = "native", feature = $feat))]
        fn main() {
            sv::main(&[$((stringify!($f), $m::$f as extern "C" fn(u64))),*]);
        }
    };
}
group!("fst", t_fst: h_fst_rt, h_fst_char, h_fst_layout, h_fst_add, h_fst_remove, h_fst_find, h_fst_ord, h_fst_ord3, h_fst_sort, h_fst_sort_wide, h_fst_walk, h_fst_walk_mut, h_fst_big);
group!("stream", t_stream: h_stream_hist, h_stream_long);
group!("window", t_window: h_win_probe, h_win_disk);
group!("reader", t_reader: h_reader_hist);
group!("malf", t_malf: h_malf_fst, h_malf_deep, h_malf_wide, h_malf_struct, h_malf_open, h_malf_part);
group!("layout", t_layout: h_lay_header, h_lay_title, h_lay_ticket, h_lay_rekey, h_lay_tmd, h_lay_cert, h_lay_code, h_lay_parts, h_lay_extent);
group!("image", t_image: h_img_rt, h_img_layout, h_img_tmd, h_img_hash, h_stream_hash, h_img_progress, h_img_fail, h_img_contents);
group!("extract", t_extract: h_dir_tree, h_dir_build, h_dir_merge, h_ext_rt, h_ext_names, h_ext_sys, h_ext_short, h_sec_name, h_sec_py, h_sec_multi, h_sec_tool, h_list_files, h_list_sections, h_ext_progress, h_sec_progress, h_copy);

// generated by gen.py

#[cxx::bridge(namespace = "rt")]
pub mod alt {
    unsafe extern "C++" {
        include!("rtsim/cxx/alt.h");
        type Obj = crate::ffi::Obj;
        type Tok = crate::user::Tok;
        type Txt = crate::ffi::Txt;
        type Rec = crate::ffi::Rec;
                fn d_t_u32(tag: u64, x: u32) -> Result<u32>;
        fn d_t_txt(tag: u64, x: Txt) -> Result<Txt>;
        fn d_t_box_txt(tag: u64, x: Box<Txt>) -> Result<Box<Txt>>;
        fn d_t_up_obj(tag: u64, x: UniquePtr<Obj>) -> Result<UniquePtr<Obj>>;
        fn d_t_string(tag: u64, x: String) -> Result<String>;
        fn d_t_vec_str(tag: u64, x: Vec<String>) -> Result<Vec<String>>;
        fn d_t_rec(tag: u64, x: Rec) -> Result<Rec>;
        fn d_t_tok(tag: u64, x: Tok) -> Result<Tok>;
    }
}

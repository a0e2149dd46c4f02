#!/usr/bin/env python3
"""Generates the bridge of the container workloads (src/gen_cont.rs)."""
import os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
K=["u8:u8","tok:Tok","string:String","rec2:Rec2","txt:Txt","f64:f64","bool:bool","pod:Pod","oitem:OItem"]
# the other primitives
K+=["i8:i8","u16:u16","i16:i16","u32:u32","i32:i32","u64:u64","i64:i64","f32:f32","char:c_char"]
K=[k.split(":") for k in K]
d=[];i=[]
for k,r in K:
    d+= [f"fn v_digest_{k}(v: &Vec<{r}>) -> u64;",f"fn v_pass_{k}(v: Vec<{r}>) -> Vec<{r}>;",f"fn v_take_{k}(v: Vec<{r}>) -> u64;",
         f"fn v_push_{k}(v: &mut Vec<{r}>, id: u64);",f"fn v_remove_{k}(v: &mut Vec<{r}>, at: usize);",f"fn v_make_{k}(id: u64, n: usize) -> Vec<{r}>;",
         f"fn s_digest_{k}(v: &[{r}]) -> u64;",f"fn s_rev_{k}(v: &mut [{r}]);", f"fn v_slice_{k}(v: &Vec<{r}>, a: usize, b: usize) -> &[{r}];", f"fn v_mslice_{k}(v: &mut Vec<{r}>, a: usize, b: usize) -> &mut [{r}];"]
    i+= [f"fn v_digest_{k}(v: &Vec<{r}>) -> u64 {{ digest(v) }}",f"fn v_pass_{k}(v: Vec<{r}>) -> Vec<{r}> {{ v }}",f"fn v_take_{k}(v: Vec<{r}>) -> u64 {{ digest(&v) }}",
         f"fn v_push_{k}(v: &mut Vec<{r}>, id: u64) {{ v.push(<{r} as Kind>::make(id)) }}",f"fn v_remove_{k}(v: &mut Vec<{r}>, at: usize) {{ drop(v.remove(at)) }}",
         f"fn v_make_{k}(id: u64, n: usize) -> Vec<{r}> {{ (0..n).map(|i| <{r} as Kind>::make(id + i as u64)).collect() }}",
         f"fn s_digest_{k}(v: &[{r}]) -> u64 {{ digest(v) }}",f"fn s_rev_{k}(v: &mut [{r}]) {{ v.reverse() }}",
         f"fn v_slice_{k}(v: &Vec<{r}>, a: usize, b: usize) -> &[{r}] {{ &v[a..b] }}",f"fn v_mslice_{k}(v: &mut Vec<{r}>, a: usize, b: usize) -> &mut [{r}] {{ &mut v[a..b] }}"]
B=["rec2:Rec2","pod2:Pod2","oitem:OItem"]
for k,r in [b.split(":") for b in B]:
    d+=[f"fn b_pass_{k}(b: Box<{r}>) -> Box<{r}>;",f"fn b_drop_{k}(b: Box<{r}>);",f"fn b_digest_{k}(b: &{r}) -> u64;",f"fn b_make_{k}(id: u64) -> Box<{r}>;"]
    i+=[f"fn b_pass_{k}(b: Box<{r}>) -> Box<{r}> {{ b }}",f"fn b_drop_{k}(b: Box<{r}>) {{ drop(b) }}",f"fn b_digest_{k}(b: &{r}) -> u64 {{ Digest::digest(b) }}",f"fn b_make_{k}(id: u64) -> Box<{r}> {{ Box::new(Kind::make(id)) }}"]
nl="\n        "
open("src/gen_cont.rs","w").write(f'''// generated by gen_cont.py
use crate::user::Tok;
use crate::user::Kind;
use crate::w_cont::*;
use cb::*;
use std::ffi::c_char;
#[cxx::bridge(namespace = "rt")]
pub mod cb {{
    struct Rec2 {{ t: Tok, s: String, u: Tok, n: u32 }}
    #[derive(Copy, Clone)]
    struct Pod2 {{ a: u64, b: u8 }}
    unsafe extern "C++" {{
        include!("rtsim/cxx/contfwd.h");
        type Tok = crate::user::Tok;
        type Txt = crate::ffi::Txt;
        type Pod = crate::ffi::Pod;
    }}
    extern "Rust" {{
        type OItem;
        fn odig(self: &OItem) -> u64;
        {nl.join(d)}
    }}
    impl Vec<Rec2> {{}}
    impl Box<Rec2> {{}}
    impl Box<Pod2> {{}}
}}
'''+"\n".join(i)+"\n")

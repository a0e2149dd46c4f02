#!/usr/bin/env python3
"""Generates the bridge of the string/vector workload (src/gen_uv.rs, cxx/gen_uv.h, cxx/gen_uv.cc)."""
import os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
# name, Rust type, C++ type, by value on the Rust side
K=[("u8","u8","uint8_t",1),("i32","i32","int32_t",1),("f64","f64","double",1),("usize","usize","size_t",1),("tok","Tok","Tok",1),("txt","Txt","Txt",1),("pod","Pod","Pod",1),("cstr","CxxString","std::string",0),("obj","Obj","Obj",0)]
K+=[(k,k,t,1) for k,t in (("i8","int8_t"),("u16","uint16_t"),("i16","int16_t"),("u32","uint32_t"),("u64","uint64_t"),("i64","int64_t"),("f32","float"),("isize","rust::isize"))]
d=[];h=[];c=[];im=[]
for k,r,t,v in K:
    V=f"CxxVector<{r}>"; W=f"std::vector<{t}>"
    fs=[("digest",f"v: &{V}","u64",f"const {W} &v","uint64_t"),("push",f"v: Pin<&mut {V}>, id: u64","",f"{W} &v, uint64_t id","void"),
        ("insert",f"v: Pin<&mut {V}>, at: usize, id: u64","",f"{W} &v, size_t at, uint64_t id","void"),("erase",f"v: Pin<&mut {V}>, at: usize","",f"{W} &v, size_t at","void"),
        ("fill",f"v: Pin<&mut {V}>, id: u64, n: usize, fail: usize","Result<()>",f"{W} &v, uint64_t id, size_t n, size_t fail","void"),
        ("clear",f"v: Pin<&mut {V}>","",f"{W} &v","void"),("shrink",f"v: Pin<&mut {V}>","",f"{W} &v","void"),
        ("swap",f"v: Pin<&mut {V}>, w: Pin<&mut {V}>","",f"{W} &v, {W} &w","void"),
        ("make",f"id: u64, n: usize",f"UniquePtr<{V}>",f"uint64_t id, size_t n",f"std::unique_ptr<{W}>"),("pass",f"v: UniquePtr<{V}>",f"UniquePtr<{V}>",f"std::unique_ptr<{W}> v",f"std::unique_ptr<{W}>"),("eat",f"v: UniquePtr<{V}>","u64",f"std::unique_ptr<{W}> v","uint64_t"),
        ("edig",f"e: &{r}","u64",f"const {t} &e","uint64_t"),("eset",f"e: Pin<&mut {r}>" if not v else f"e: &mut {r}","",f"{t} &e","void")]
    for n,ra,rr,ca,cr in fs:
        if n=="eset": ra+=", id: u64"; ca+=", uint64_t id"
        d.append(f"fn uv_{n}_{k}({ra})"+(f" -> {rr}" if rr else "")+";")
        h.append(f"{cr} uv_{n}_{k}({ca});")
        args=", ".join(("std::move(%s)" if "unique_ptr" in a else "%s")%a.split()[-1].lstrip("&") for a in ca.split(", "))
        c.append(f"{cr} uv_{n}_{k}({ca}) {{ return uv_{n}<{t}>({args}); }}")
    if r in("Tok",): im.append(f"    impl CxxVector<{r}> {{}}")
nl="\n        "
T="// generated by gen_uv.py\n"
tr=[]
for k,r,t,v in K:
    tr.append(f'''impl VK for {r} {{
    const NAME: &'static str = "{k}";
    fn digest(v: &CxxVector<Self>) -> u64 {{ ub::uv_digest_{k}(v) }}
    fn cpush(v: Pin<&mut CxxVector<Self>>, id: u64) {{ ub::uv_push_{k}(v, id) }}
    fn insert(v: Pin<&mut CxxVector<Self>>, at: usize, id: u64) {{ ub::uv_insert_{k}(v, at, id) }}
    fn erase(v: Pin<&mut CxxVector<Self>>, at: usize) {{ ub::uv_erase_{k}(v, at) }}
    fn fill(v: Pin<&mut CxxVector<Self>>, id: u64, n: usize, fail: usize) -> Result<(), cxx::Exception> {{ ub::uv_fill_{k}(v, id, n, fail) }}
    fn clear(v: Pin<&mut CxxVector<Self>>) {{ ub::uv_clear_{k}(v) }}
    fn shrink(v: Pin<&mut CxxVector<Self>>) {{ ub::uv_shrink_{k}(v) }}
    fn swap(v: Pin<&mut CxxVector<Self>>, w: Pin<&mut CxxVector<Self>>) {{ ub::uv_swap_{k}(v, w) }}
    fn make(id: u64, n: usize) -> UniquePtr<CxxVector<Self>> {{ ub::uv_make_{k}(id, n) }}
    fn pass(v: UniquePtr<CxxVector<Self>>) -> UniquePtr<CxxVector<Self>> {{ ub::uv_pass_{k}(v) }}
    fn eat(v: UniquePtr<CxxVector<Self>>) -> u64 {{ ub::uv_eat_{k}(v) }}
    fn edig(&self) -> u64 {{ ub::uv_edig_{k}(self) }}
    fn eset(e: Pin<&mut Self>, id: u64) {{ ub::uv_eset_{k}({"e" if not v else "Pin::into_inner(e)"}, id) }}
    fn by_value() -> Option<ByValue<Self>> {{ {"Some(ByValue::<Self>::of())" if v else "None"} }}
}}''')
open("src/gen_uv.rs","w").write(T+f'''use crate::ffi::{{Obj, Pod, Txt}};
use crate::user::Tok;
use crate::w_uv::{{ByValue, VK}};
use cxx::{{CxxString, CxxVector, SharedPtr, UniquePtr}};
use std::pin::Pin;
#[cxx::bridge(namespace = "rt")]
pub mod ub {{
    unsafe extern "C++" {{
        include!("rtsim/cxx/contfwd.h");
        include!("rtsim/cxx/gen_uv.h");
        type Obj = crate::ffi::Obj;
        type Tok = crate::user::Tok;
        type Txt = crate::ffi::Txt;
        type Pod = crate::ffi::Pod;
        {nl.join(d)}
        fn us_digest(s: &CxxString) -> u64;
        fn us_append(s: Pin<&mut CxxString>, id: u64);
        fn us_resize(s: Pin<&mut CxxString>, n: usize);
        fn us_erase(s: Pin<&mut CxxString>, at: usize, n: usize);
        fn us_swap(s: Pin<&mut CxxString>, t: Pin<&mut CxxString>);
        fn us_pass(s: UniquePtr<CxxString>) -> UniquePtr<CxxString>;
        fn us_shared(s: &CxxString) -> SharedPtr<CxxString>;
        fn us_eat(s: UniquePtr<CxxString>) -> u64;
        fn us_capacity(s: &CxxString) -> usize;
        fn us_fail(s: Pin<&mut CxxString>, id: u64) -> Result<()>;
    }}
{chr(10).join(im)}
}}
'''+"\n".join(tr)+"\n")
open("cxx/gen_uv.h","w").write(T+'''#pragma once
#include "rtsim/cxx/types.h"
#include "rtsim/src/gen_bridge.rs.h"
namespace rt {
'''+"\n".join(h)+'''
uint64_t us_digest(const std::string &s);
void us_append(std::string &s, uint64_t id);
void us_resize(std::string &s, size_t n);
void us_erase(std::string &s, size_t at, size_t n);
void us_swap(std::string &s, std::string &t);
std::unique_ptr<std::string> us_pass(std::unique_ptr<std::string> s);
std::shared_ptr<std::string> us_shared(const std::string &s);
uint64_t us_eat(std::unique_ptr<std::string> s);
size_t us_capacity(const std::string &s);
void us_fail(std::string &s, uint64_t id);
}
''')
open("cxx/gen_uv.cc","w").write(T+'#include "rtsim/cxx/uv.h"\nnamespace rt {\n'+"\n".join(c)+"\n}\n")

#!/usr/bin/env python3
"""Generates the bridge, the callees and the drivers of rtsim (src/gen_*.rs, cxx/gen_*.{h,cc}).
The output is committed; build.rs does not run this script."""
import os
os.chdir(os.path.dirname(os.path.abspath(__file__)))

# name, Rust type in the bridge, C++ type
BYVAL = [
 ("u8","u8","uint8_t"),("i8","i8","int8_t"),("u16","u16","uint16_t"),("i16","i16","int16_t"),
 ("u32","u32","uint32_t"),("i32","i32","int32_t"),("u64","u64","uint64_t"),("i64","i64","int64_t"),
 ("usize","usize","size_t"),("isize","isize","rust::isize"),("f32","f32","float"),("f64","f64","double"),
 ("bool","bool","bool"),("chr","c_char","char"),
 ("pod","Pod","Pod"),("color","Color","Color"),("txt","Txt","Txt"),("rec","Rec","Rec"),("tok","Tok","Tok"),
 ("box_robj","Box<RObj>","rust::Box<RObj>"),("box_txt","Box<Txt>","rust::Box<Txt>"),
 ("up_obj","UniquePtr<Obj>","std::unique_ptr<Obj>"),("up_str","UniquePtr<CxxString>","std::unique_ptr<std::string>"),
 ("up_pod","UniquePtr<Pod>","std::unique_ptr<Pod>"),("up_txt","UniquePtr<Txt>","std::unique_ptr<Txt>"),
 ("up_vu8","UniquePtr<CxxVector<u8>>","std::unique_ptr<std::vector<uint8_t>>"),
 ("up_vf64","UniquePtr<CxxVector<f64>>","std::unique_ptr<std::vector<double>>"),
 ("up_vstr","UniquePtr<CxxVector<CxxString>>","std::unique_ptr<std::vector<std::string>>"),
 ("up_vobj","UniquePtr<CxxVector<Obj>>","std::unique_ptr<std::vector<Obj>>"),
 ("up_vtxt","UniquePtr<CxxVector<Txt>>","std::unique_ptr<std::vector<Txt>>"),
 ("sp_obj","SharedPtr<Obj>","std::shared_ptr<Obj>"),("sp_pod","SharedPtr<Pod>","std::shared_ptr<Pod>"),
 ("sp_str","SharedPtr<CxxString>","std::shared_ptr<std::string>"),("sp_u64","SharedPtr<u64>","std::shared_ptr<uint64_t>"),
 ("wp_obj","WeakPtr<Obj>","std::weak_ptr<Obj>"),
 ("string","String","rust::String"),("vec_u8","Vec<u8>","rust::Vec<uint8_t>"),("vec_str","Vec<String>","rust::Vec<rust::String>"),
 ("vec_txt","Vec<Txt>","rust::Vec<Txt>"),("vec_pod","Vec<Pod>","rust::Vec<Pod>"),("vec_bool","Vec<bool>","rust::Vec<bool>"),
 ("vec_f64","Vec<f64>","rust::Vec<double>"),("vec_usize","Vec<usize>","rust::Vec<size_t>"),
 ("vec_tok","Vec<Tok>","rust::Vec<Tok>"),("vec_robj","Vec<RObj>","rust::Vec<RObj>"),
]
PRIM={"u8","i8","u16","i16","u32","i32","u64","i64","usize","isize","f32","f64","bool","chr"}
PRIMFULL={"u8","i64","f32","bool"}
# kinds passed by reference: name, Rust referent, C++ referent, pinned, by-value kind that owns it ("" = itself), deref expr
REFS = [
 ("txt","Txt","Txt",0,"txt"),("rec","Rec","Rec",0,"rec"),("pod","Pod","Pod",0,"pod"),("u64","u64","uint64_t",0,"u64"),
 ("robj","RObj","RObj",0,"box_robj"),("obj","Obj","Obj",1,"up_obj"),
 ("string","String","rust::String",0,"string"),("vec_u8","Vec<u8>","rust::Vec<uint8_t>",0,"vec_u8"),
 ("vec_txt","Vec<Txt>","rust::Vec<Txt>",0,"vec_txt"),("vec_str","Vec<String>","rust::Vec<rust::String>",0,"vec_str"),
 ("cstr","CxxString","std::string",1,"up_str"),("cvu8","CxxVector<u8>","std::vector<uint8_t>",1,"up_vu8"),
 ("cvstr","CxxVector<CxxString>","std::vector<std::string>",1,"up_vstr"),
 ("cvobj","CxxVector<Obj>","std::vector<Obj>",1,"up_vobj"),
 ("sp_obj","SharedPtr<Obj>","std::shared_ptr<Obj>",0,"sp_obj"),("up_obj","UniquePtr<Obj>","std::unique_ptr<Obj>",0,"up_obj"),
 ("box_robj","Box<RObj>","rust::Box<RObj>",0,"box_robj"),("tok","Tok","Tok",0,"tok"),
]
# by-value kinds that stand behind a reference through a smart pointer
DEREF={"box_robj":"robj","up_obj":"obj","up_str":"cstr","up_vu8":"cvu8","up_vstr":"cvstr","up_vobj":"cvobj"}
SLICES=[("u8","u8","uint8_t","vec_u8"),("string","String","rust::String","vec_str"),("txt","Txt","Txt","vec_txt"),("pod","Pod","Pod","vec_pod"),
        ("usize","usize","size_t","vec_usize"),("f64","f64","double","vec_f64"),("robj","RObj","RObj","vec_robj"),("tok","Tok","Tok","vec_tok")]
CB=["u32","txt","rec","tok","box_robj","up_obj","sp_obj","string","vec_str","vec_tok","color"]
METH=["u32","txt","rec","tok","box_robj","up_obj","sp_obj","string","vec_txt"]

rsty={n:r for n,r,c in BYVAL}; ccty={n:c for n,r,c in BYVAL}

cx_decl=[]   # extern "C++" in bridge (ffi)
r_decl=[]    # extern "Rust" in bridge
h=[]         # C++ declarations of c_* functions
cc=[]        # C++ definitions
rs_impl=[]   # Rust callees
drv_rs=[]    # (name, code) Rust driver arms for r2c
drv_cc=[]    # C++ driver arms for c2r
fns=[]       # (name, dir, shape, kind, fallible)

def fn_r2c(name, shape, kind, fallible, decl, hdecl, ccdef, arm):
    cx_decl.append(decl); h.append(hdecl); cc.append(ccdef)
    fns.append((name,0,shape,kind,fallible)); drv_rs.append(arm)
def fn_c2r(name, shape, kind, fallible, decl, impl, arm):
    r_decl.append(decl); rs_impl.append(impl)
    fns.append((name,1,shape,kind,fallible)); drv_cc.append(arm)

ALT=[] # functions of the second bridge, with the user's own trycatch
for n,r,c in BYVAL:
    full = n not in PRIM or n in PRIMFULL
    # ---- R -> C++
    fn_r2c(f"c_x_{n}","x",n,0,f"fn c_x_{n}(tag: u64, x: {r}) -> {r};",f"{c} c_x_{n}(uint64_t tag, {c} x);",
        f"{c} c_x_{n}(uint64_t tag, {c} x) {{ return callee_x<{c}>(tag, std::move(x)); }}",f"drive_x(tag, ffi::c_x_{n})")
    fn_c2r(f"r_x_{n}","x",n,0,f"fn r_x_{n}(tag: u64, x: {r}) -> {r};",f"fn r_x_{n}(tag: u64, x: {r}) -> {r} {{ callee_x(tag, x) }}",f"drive_x<{c}>(tag, r_x_{n})")
    if not full: continue
    fn_r2c(f"c_t_{n}","x",n,1,f"fn c_t_{n}(tag: u64, x: {r}) -> Result<{r}>;",f"{c} c_t_{n}(uint64_t tag, {c} x);",
        f"{c} c_t_{n}(uint64_t tag, {c} x) {{ return callee_x<{c}>(tag, std::move(x)); }}",f"drive_t(tag, ffi::c_t_{n})")
    fn_c2r(f"r_t_{n}","x",n,1,f"fn r_t_{n}(tag: u64, x: {r}) -> Result<{r}>;",f"fn r_t_{n}(tag: u64, x: {r}) -> Result<{r}, RErr> {{ callee_t(tag, x) }}",f"drive_t<{c}>(tag, r_t_{n})")
    fn_r2c(f"c_take_{n}","take",n,0,f"fn c_take_{n}(tag: u64, x: {r});",f"void c_take_{n}(uint64_t tag, {c} x);",
        f"void c_take_{n}(uint64_t tag, {c} x) {{ callee_take<{c}>(tag, std::move(x)); }}",f"drive_take(tag, ffi::c_take_{n})")
    fn_c2r(f"r_take_{n}","take",n,0,f"fn r_take_{n}(tag: u64, x: {r});",f"fn r_take_{n}(tag: u64, x: {r}) {{ callee_take(tag, x) }}",f"drive_take<{c}>(tag, r_take_{n})")
    fn_r2c(f"c_ttake_{n}","take",n,1,f"fn c_ttake_{n}(tag: u64, x: {r}) -> Result<()>;",f"void c_ttake_{n}(uint64_t tag, {c} x);",
        f"void c_ttake_{n}(uint64_t tag, {c} x) {{ callee_take<{c}>(tag, std::move(x)); }}",f"drive_ttake(tag, ffi::c_ttake_{n})")
    fn_c2r(f"r_ttake_{n}","take",n,1,f"fn r_ttake_{n}(tag: u64, x: {r}) -> Result<()>;",f"fn r_ttake_{n}(tag: u64, x: {r}) -> Result<(), RErr> {{ callee_ttake(tag, x) }}",f"drive_ttake<{c}>(tag, r_ttake_{n})")
    fn_r2c(f"c_ret_{n}","ret",n,0,f"fn c_ret_{n}(tag: u64) -> {r};",f"{c} c_ret_{n}(uint64_t tag);",
        f"{c} c_ret_{n}(uint64_t tag) {{ return callee_ret<{c}>(tag); }}",f"drive_ret(tag, ffi::c_ret_{n})")
    fn_c2r(f"r_ret_{n}","ret",n,0,f"fn r_ret_{n}(tag: u64) -> {r};",f"fn r_ret_{n}(tag: u64) -> {r} {{ callee_ret(tag) }}",f"drive_ret<{c}>(tag, r_ret_{n})")
    fn_r2c(f"c_tret_{n}","ret",n,1,f"fn c_tret_{n}(tag: u64) -> Result<{r}>;",f"{c} c_tret_{n}(uint64_t tag);",
        f"{c} c_tret_{n}(uint64_t tag) {{ return callee_ret<{c}>(tag); }}",f"drive_tret(tag, ffi::c_tret_{n})")
    fn_c2r(f"r_tret_{n}","ret",n,1,f"fn r_tret_{n}(tag: u64) -> Result<{r}>;",f"fn r_tret_{n}(tag: u64) -> Result<{r}, RErr> {{ callee_tret(tag) }}",f"drive_tret<{c}>(tag, r_tret_{n})")

for n in CB:
    r,c=rsty[n],ccty[n]
    fn_r2c(f"c_cb_{n}","cb",n,0,f"fn c_cb_{n}(tag: u64, x: {r}, f: fn(u64, {r}) -> {r}) -> {r};",
        f"{c} c_cb_{n}(uint64_t tag, {c} x, rust::Fn<{c}(uint64_t, {c})> f);",
        f"{c} c_cb_{n}(uint64_t tag, {c} x, rust::Fn<{c}(uint64_t, {c})> f) {{ return callee_cb<{c}>(tag, std::move(x), f); }}",
        f"drive_cb(tag, ffi::c_cb_{n})")
    fn_r2c(f"c_tcb_{n}","cb",n,1,f"fn c_tcb_{n}(tag: u64, x: {r}, f: fn(u64, {r}) -> {r}) -> Result<{r}>;",
        f"{c} c_tcb_{n}(uint64_t tag, {c} x, rust::Fn<{c}(uint64_t, {c})> f);",
        f"{c} c_tcb_{n}(uint64_t tag, {c} x, rust::Fn<{c}(uint64_t, {c})> f) {{ return callee_cb<{c}>(tag, std::move(x), f); }}",
        f"drive_tcb(tag, ffi::c_tcb_{n})")
    fn_r2c(f"c_cbr_{n}","cbr",n,0,f"fn c_cbr_{n}(tag: u64, x: &{r}, f: fn(u64, &{r}));",
        f"void c_cbr_{n}(uint64_t tag, const {c} &x, rust::Fn<void(uint64_t, const {c} &)> f);",
        f"void c_cbr_{n}(uint64_t tag, const {c} &x, rust::Fn<void(uint64_t, const {c} &)> f) {{ callee_cbr<{c}>(tag, x, f); }}",
        f"drive_cbr(tag, ffi::c_cbr_{n})")

# methods
m_obj=[];m_robj_h=[]
for n in METH:
    r,c=rsty[n],ccty[n]
    cx_decl.append(f"fn m_x_{n}(self: Pin<&mut Obj>, tag: u64, x: {r}) -> {r};")
    cx_decl.append(f"fn m_t_{n}(self: &Obj, tag: u64, x: {r}) -> Result<{r}>;")
    cx_decl.append(f"fn sm_t_{n}(self: &mut Pod, tag: u64, x: {r}) -> Result<{r}>;")
    m_obj.append(f"{c} m_x_{n}(uint64_t tag, {c} x); {c} m_t_{n}(uint64_t tag, {c} x) const;")
    cc.append(f"{c} Obj::m_x_{n}(uint64_t tag, {c} x) {{ self_check(tag); return callee_x<{c}>(tag, std::move(x)); }}")
    cc.append(f"{c} Obj::m_t_{n}(uint64_t tag, {c} x) const {{ self_check(tag); return callee_x<{c}>(tag, std::move(x)); }}")
    cc.append(f"{c} Pod::sm_t_{n}(uint64_t tag, {c} x) {{ check_at(*this, opx(tag) + 5, tag, \"this\"); return callee_x<{c}>(tag, std::move(x)); }}")
    fns.append((f"m_x_{n}",0,"x",n,0)); drv_rs.append(f"{{ let o = RefCell::new(self_obj(tag)); drive_x(tag, |t, x| o.borrow_mut().pin_mut().m_x_{n}(t, x)) }}")
    fns.append((f"m_t_{n}",0,"x",n,1)); drv_rs.append(f"{{ let o = self_obj(tag); drive_t(tag, |t, x| o.m_t_{n}(t, x)) }}")
    fns.append((f"sm_t_{n}",0,"x",n,1)); drv_rs.append(f"{{ let o = RefCell::new(Pod::make(opx(tag) + 5)); drive_t(tag, |t, x| o.borrow_mut().sm_t_{n}(t, x)) }}")
    r_decl.append(f"fn rm_x_{n}(self: &mut RObj, tag: u64, x: {r}) -> {r};")
    r_decl.append(f"fn rm_t_{n}(self: &RObj, tag: u64, x: {r}) -> Result<{r}>;")
    r_decl.append(f"fn rsm_t_{n}(self: &mut Txt, tag: u64, x: {r}) -> Result<{r}>;")
    rs_impl.append(f"impl RObj {{ pub fn rm_x_{n}(&mut self, tag: u64, x: {r}) -> {r} {{ self.self_check(tag); callee_x(tag, x) }} pub fn rm_t_{n}(&self, tag: u64, x: {r}) -> Result<{r}, RErr> {{ self.self_check(tag); callee_t(tag, x) }} }}")
    rs_impl.append(f"impl Txt {{ pub fn rsm_t_{n}(&mut self, tag: u64, x: {r}) -> Result<{r}, RErr> {{ check_at(self, opx(tag) + 5, tag, \"self\"); callee_t(tag, x) }} }}")
    fns.append((f"rm_x_{n}",1,"x",n,0)); drv_cc.append(f"{{ auto o = self_robj(tag); drive_x<{c}>(tag, [&](uint64_t t, {c} x) {{ return o->rm_x_{n}(t, std::move(x)); }}); }}")
    fns.append((f"rm_t_{n}",1,"x",n,1)); drv_cc.append(f"{{ auto o = self_robj(tag); drive_t<{c}>(tag, [&](uint64_t t, {c} x) {{ return o->rm_t_{n}(t, std::move(x)); }}); }}")
    fns.append((f"rsm_t_{n}",1,"x",n,1)); drv_cc.append(f"{{ Txt o = make<Txt>(opx(tag) + 5); drive_t<{c}>(tag, [&](uint64_t t, {c} x) {{ return o.rsm_t_{n}(t, std::move(x)); }}); }}")

# references
for n,r,c,pin,own in REFS:
    o_r,o_c=rsty[own],ccty[own]
    d_rs = "&**o" if DEREF.get(own)==n else "&*o"
    d_cc = "*o" if DEREF.get(own)==n else "o"
    smart = DEREF.get(own)==n
    mr = f"Pin<&mut {r}>" if pin else f"&mut {r}"
    mra = mr.replace("&mut","&'a mut")
    t="smart" if smart else "plain"
    fn_r2c(f"c_ref_{n}","ref",n,0,f"fn c_ref_{n}(tag: u64, x: &{r}) -> &{r};",f"const {c} &c_ref_{n}(uint64_t tag, const {c} &x);",
        f"const {c} &c_ref_{n}(uint64_t tag, const {c} &x) {{ return callee_ref<{c}>(tag, x); }}",
        f"drive_ref::<{o_r}, {r}>(tag, |t, o| ffi::c_ref_{n}(t, {'o.target()' if smart else 'o'}), |o| {'o.target()' if smart else 'o'})")
    fn_r2c(f"c_tref_{n}","ref",n,1,f"fn c_tref_{n}(tag: u64, x: &{r}) -> Result<&{r}>;",f"const {c} &c_tref_{n}(uint64_t tag, const {c} &x);",
        f"const {c} &c_tref_{n}(uint64_t tag, const {c} &x) {{ return callee_ref<{c}>(tag, x); }}",
        f"drive_tref::<{o_r}, {r}>(tag, |t, o| ffi::c_tref_{n}(t, {'o.target()' if smart else 'o'}), |o| {'o.target()' if smart else 'o'})")
    acc_ = "o.pin_mut()" if pin else ("&mut **o" if smart else "o")
    back = "unsafe { m.get_unchecked_mut() }" if pin else "m"
    fn_r2c(f"c_mut_{n}","mut",n,0,f"fn c_mut_{n}(tag: u64, x: {mr}) -> {mr};",f"{c} &c_mut_{n}(uint64_t tag, {c} &x);",
        f"{c} &c_mut_{n}(uint64_t tag, {c} &x) {{ return callee_mut<{c}>(tag, x); }}",
        f"drive_mut::<{o_r}, {r}>(tag, |t, o| {{ let m = ffi::c_mut_{n}(t, {acc_}); {back} }}, |o| {'o.target()' if smart else 'o'})")
    fn_r2c(f"c_tmut_{n}","mut",n,1,f"fn c_tmut_{n}(tag: u64, x: {mr}) -> Result<{mr}>;",f"{c} &c_tmut_{n}(uint64_t tag, {c} &x);",
        f"{c} &c_tmut_{n}(uint64_t tag, {c} &x) {{ return callee_mut<{c}>(tag, x); }}",
        f"drive_tmut::<{o_r}, {r}>(tag, |t, o| ffi::c_tmut_{n}(t, {acc_}).map(|m| {back}), |o| {'o.target()' if smart else 'o'})")
    rr=f"&'a {r}"
    fn_c2r(f"r_ref_{n}","ref",n,0,f"fn r_ref_{n}(tag: u64, x: &{r}) -> &{r};",f"fn r_ref_{n}(tag: u64, x: &{r}) -> &{r} {{ callee_ref(tag, x) }}",
        f"drive_ref<{o_c}, {c}>(tag, r_ref_{n}, []({o_c} &o) -> {c} & {{ return {d_cc}; }});")
    fn_c2r(f"r_tref_{n}","ref",n,1,f"unsafe fn r_tref_{n}<'a>(tag: u64, x: &'a {r}) -> Result<&'a {r}>;",f"fn r_tref_{n}(tag: u64, x: &{r}) -> Result<&{r}, RErr> {{ callee_tref(tag, x) }}",
        f"drive_tref<{o_c}, {c}>(tag, r_tref_{n}, []({o_c} &o) -> {c} & {{ return {d_cc}; }});")
    cal = "callee_pin" if pin else "callee_mut"
    fn_c2r(f"r_mut_{n}","mut",n,0,f"fn r_mut_{n}(tag: u64, x: {mr}) -> {mr};",f"fn r_mut_{n}(tag: u64, x: {mr}) -> {mr} {{ {cal}(tag, x) }}",
        f"drive_mut<{o_c}, {c}>(tag, r_mut_{n}, []({o_c} &o) -> {c} & {{ return {d_cc}; }});")
    cal = "callee_tpin" if pin else "callee_tmut"
    fn_c2r(f"r_tmut_{n}","mut",n,1,f"unsafe fn r_tmut_{n}<'a>(tag: u64, x: {mra}) -> Result<{mra}>;",f"fn r_tmut_{n}(tag: u64, x: {mr}) -> Result<{mr}, RErr> {{ {cal}(tag, x) }}",
        f"drive_tmut<{o_c}, {c}>(tag, r_tmut_{n}, []({o_c} &o) -> {c} & {{ return {d_cc}; }});")

# slices and str
for n,r,c,own in SLICES:
    o_r,o_c=rsty[own],ccty[own]
    fn_r2c(f"c_sl_{n}","sl",n,0,f"fn c_sl_{n}(tag: u64, x: &[{r}]) -> &[{r}];",f"rust::Slice<const {c}> c_sl_{n}(uint64_t tag, rust::Slice<const {c}> x);",
        f"rust::Slice<const {c}> c_sl_{n}(uint64_t tag, rust::Slice<const {c}> x) {{ return callee_sl<{c}>(tag, x); }}",f"drive_sl(tag, |t, s| ffi::c_sl_{n}(t, s))")
    fn_r2c(f"c_tsl_{n}","sl",n,1,f"fn c_tsl_{n}(tag: u64, x: &[{r}]) -> Result<&[{r}]>;",f"rust::Slice<const {c}> c_tsl_{n}(uint64_t tag, rust::Slice<const {c}> x);",
        f"rust::Slice<const {c}> c_tsl_{n}(uint64_t tag, rust::Slice<const {c}> x) {{ return callee_sl<{c}>(tag, x); }}",f"drive_tsl(tag, |t, s| ffi::c_tsl_{n}(t, s))")
    fn_r2c(f"c_msl_{n}","msl",n,0,f"fn c_msl_{n}(tag: u64, x: &mut [{r}]) -> &mut [{r}];",f"rust::Slice<{c}> c_msl_{n}(uint64_t tag, rust::Slice<{c}> x);",
        f"rust::Slice<{c}> c_msl_{n}(uint64_t tag, rust::Slice<{c}> x) {{ return callee_msl<{c}>(tag, x); }}",f"drive_msl(tag, |t, s| ffi::c_msl_{n}(t, s))")
    fn_r2c(f"c_tmsl_{n}","msl",n,1,f"fn c_tmsl_{n}(tag: u64, x: &mut [{r}]) -> Result<&mut [{r}]>;",f"rust::Slice<{c}> c_tmsl_{n}(uint64_t tag, rust::Slice<{c}> x);",
        f"rust::Slice<{c}> c_tmsl_{n}(uint64_t tag, rust::Slice<{c}> x) {{ return callee_msl<{c}>(tag, x); }}",f"drive_tmsl(tag, |t, s| ffi::c_tmsl_{n}(t, s))")
    fn_c2r(f"r_sl_{n}","sl",n,0,f"fn r_sl_{n}(tag: u64, x: &[{r}]) -> &[{r}];",f"fn r_sl_{n}(tag: u64, x: &[{r}]) -> &[{r}] {{ callee_sl(tag, x) }}",f"drive_sl<{o_c}, {c}>(tag, r_sl_{n})")
    fn_c2r(f"r_tsl_{n}","sl",n,1,f"unsafe fn r_tsl_{n}<'a>(tag: u64, x: &'a [{r}]) -> Result<&'a [{r}]>;",f"fn r_tsl_{n}(tag: u64, x: &[{r}]) -> Result<&[{r}], RErr> {{ callee_tsl(tag, x) }}",f"drive_tsl<{o_c}, {c}>(tag, r_tsl_{n})")
    fn_c2r(f"r_msl_{n}","msl",n,0,f"fn r_msl_{n}(tag: u64, x: &mut [{r}]) -> &mut [{r}];",f"fn r_msl_{n}(tag: u64, x: &mut [{r}]) -> &mut [{r}] {{ callee_msl(tag, x) }}",f"drive_msl<{o_c}, {c}>(tag, r_msl_{n})")
    fn_c2r(f"r_tmsl_{n}","msl",n,1,f"unsafe fn r_tmsl_{n}<'a>(tag: u64, x: &'a mut [{r}]) -> Result<&'a mut [{r}]>;",f"fn r_tmsl_{n}(tag: u64, x: &mut [{r}]) -> Result<&mut [{r}], RErr> {{ callee_tmsl(tag, x) }}",f"drive_tmsl<{o_c}, {c}>(tag, r_tmsl_{n})")
fn_r2c("c_str","str","str",0,"fn c_str(tag: u64, x: &str) -> &str;","rust::Str c_str(uint64_t tag, rust::Str x);","rust::Str c_str(uint64_t tag, rust::Str x) { return callee_str(tag, x); }","drive_str(tag, |t, s| ffi::c_str(t, s))")
fn_r2c("c_tstr","str","str",1,"fn c_tstr(tag: u64, x: &str) -> Result<&str>;","rust::Str c_tstr(uint64_t tag, rust::Str x);","rust::Str c_tstr(uint64_t tag, rust::Str x) { return callee_str(tag, x); }","drive_tstr(tag, |t, s| ffi::c_tstr(t, s))")
fn_c2r("r_str","str","str",0,"fn r_str(tag: u64, x: &str) -> &str;","fn r_str(tag: u64, x: &str) -> &str { callee_str(tag, x) }","drive_str(tag, r_str)")
fn_c2r("r_tstr","str","str",1,"unsafe fn r_tstr<'a>(tag: u64, x: &'a str) -> Result<&'a str>;","fn r_tstr(tag: u64, x: &str) -> Result<&str, RErr> { callee_tstr(tag, x) }","drive_tstr(tag, r_tstr)")

# one function with everything
MULTI=["i8","string","box_robj","up_obj","txt","f64","vec_str","sp_obj","tok","color","bool","rec","f32","vec_tok","u16"]
ra=", ".join(f"a{i}: {rsty[k]}" for i,k in enumerate(MULTI)); ca=", ".join(f"{ccty[k]} a{i}" for i,k in enumerate(MULTI))
for f,ret in (("",""),("t","Result")):
    rr="Rec" if not f else "Result<Rec>"
    cchk=" ".join(f"check_at(a{i}, opid(tag) + {i}, tag, \"a{i}\");" for i in range(len(MULTI)))
    rchk=" ".join(f"check_at(&a{i}, opid(tag) + {i}, tag, \"a{i}\");" for i in range(len(MULTI)))
    mkrs=", ".join(f"Kind::make(opid(t) + {i})" for i in range(len(MULTI)))
    mkcc="".join(f"auto a{i} = make<{ccty[k]}>(opid(tag) + {i}); " for i,k in enumerate(MULTI))
    mvcc=", ".join(f"std::move(a{i})" for i in range(len(MULTI)))
    fn_r2c(f"c_{f}multi","multi","rec",int(bool(f)),f"fn c_{f}multi(tag: u64, {ra}, s: &str, r: &RObj, t: &Txt, sl: &[String]) -> {rr};",
      f"Rec c_{f}multi(uint64_t tag, {ca}, rust::Str s, const RObj &r, const Txt &t, rust::Slice<const rust::String> sl);",
      f"Rec c_{f}multi(uint64_t tag, {ca}, rust::Str s, const RObj &r, const Txt &t, rust::Slice<const rust::String> sl) {{ Frame fr(tag); {cchk} check_str(s, opid(tag) + 50, tag); check_at(r, opid(tag) + 51, tag, \"r\"); check_at(t, opid(tag) + 52, tag, \"t\"); check_slice<rust::String>(sl, opid(tag) + 53, tag); body(tag, false); return make_ret<Rec>(tag); }}",
      f"drive_{f}ret(tag, |t| {{ let s = text(opid(t) + 50); let r = Box::<RObj>::make(opid(t) + 51); let x = Txt::make(opid(t) + 52); let sl = Vec::<String>::make(opid(t) + 53); ffi::c_{f}multi(t, {mkrs}, &s, &r, &x, &sl) }})")
    rrr="Rec" if not f else "Result<Rec, RErr>"
    fn_c2r(f"r_{f}multi","multi","rec",int(bool(f)),f"fn r_{f}multi(tag: u64, {ra}, s: &str, r: &RObj, t: &Txt, sl: &[String]) -> {rr};",
      f"#[allow(clippy::too_many_arguments)] fn r_{f}multi(tag: u64, {ra}, s: &str, r: &RObj, t: &Txt, sl: &[String]) -> {rrr} {{ let _f = Frame::new(tag); {rchk} check_str(s, opid(tag) + 50, tag); check_at(r, opid(tag) + 51, tag, \"r\"); check_at(t, opid(tag) + 52, tag, \"t\"); check_slice(sl, opid(tag) + 53, tag); {'body(tag)?; Ok(make_ret(tag))' if f else 'body0(tag); make_ret(tag)'} }}",
      f"drive_{f}ret<Rec>(tag, [](uint64_t tag) {{ auto s = text(opid(tag) + 50); auto r = make<rust::Box<RObj>>(opid(tag) + 51); auto x = make<Txt>(opid(tag) + 52); auto sl = make<rust::Vec<rust::String>>(opid(tag) + 53); {mkcc} return r_{f}multi(tag, {mvcc}, rust::Str(s), *r, x, rust::Slice<const rust::String>(sl)); }})")

# derived operators of shared structs: C++ calls Rust without any declared function
for t in ("Key","KeyP"):
    for i,o in enumerate(["eq","ne","lt","le","gt","ge"]):
        fns.append((f"op_{o}_{t.lower()}",1,"op",t.lower(),0)); drv_cc.append(f"drive_op<{t}>(tag, {i})")
fns.append(("op_hash_key",1,"op","key",0)); drv_cc.append("drive_hash(tag)")
# the crate's own functions, with an allocation that fails in them
for i,n in enumerate(["str_push","str_reserve","let_cxx_string","str_write","vec_new","vec_push","vec_push_tok","vec_push_txt","up_new","up_new_txt","sp_new","sp_new_u64","sp_new_txt","vec_new_tok","vec_new_txt","vec_new_obj"]):
    fns.append((f"rt_{n}",0,"shim",n,0)); drv_rs.append(f"drive_shim(tag, {i})")

# second bridge: custom trycatch
alt_decl=[];alt_h=[];alt_cc=[]
for n in ["u32","txt","box_txt","up_obj","string","vec_str","rec","tok"]:
    r,c=rsty[n],ccty[n]
    alt_decl.append(f"fn d_t_{n}(tag: u64, x: {r}) -> Result<{r}>;"); alt_h.append(f"{c} d_t_{n}(uint64_t tag, {c} x);")
    alt_cc.append(f"{c} d_t_{n}(uint64_t tag, {c} x) {{ return callee_x<{c}>(tag, std::move(x)); }}")
    fns.append((f"d_t_{n}",0,"x",n,2)); drv_rs.append(f"drive_t(tag, alt::d_t_{n})")

T="""// generated by gen.py
"""
open("src/gen_bridge.rs","w").write(T+f'''
use crate::gen_callees::*;
use crate::user::*;
use crate::user::{{RObj, Tok}};
#[cxx::bridge(namespace = "rt")]
pub mod ffi {{
    #[derive(Copy, Clone, Debug, PartialEq, Default)]
    struct Pod {{ a: i32, b: u64, c: f64, d: [u16; 3] }}
    #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
    #[repr(u8)]
    enum Color {{ Red, Green = 7, Blue, Last = 255 }}
    #[derive(Clone, Debug, PartialEq, Default)]
    struct Txt {{ s: String, n: u32, v: Vec<u8> }}
    struct Rec {{ s: String, t: Txt, b: Box<RObj>, u: UniquePtr<Obj>, sp: SharedPtr<Obj>, w: WeakPtr<Obj>, tok: Tok, vt: Vec<Txt>, cs: UniquePtr<CxxString>, p: Pod, c: Color }}

    #[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
    struct Key {{ c: Cmp, n: u32 }}
    #[derive(Copy, Clone, PartialEq, PartialOrd)]
    struct KeyP {{ c: CmpP, n: u32 }}

    unsafe extern "C++" {{
        include!("rtsim/cxx/types.h");
        type Obj;
        type Cmp = crate::user::Cmp;
        type CmpP = crate::user::CmpP;
        type Tok = crate::user::Tok;
        fn obj_id(o: &Obj) -> u64;
        fn obj_new(id: u64) -> UniquePtr<Obj>;
        fn obj_new_shared(id: u64) -> SharedPtr<Obj>;
        fn obj_set(o: Pin<&mut Obj>, id: u64);
        fn hash_of(k: &Key) -> usize;
        fn keeper() -> SharedPtr<Obj>;
        fn c_raise(tag: u64) -> Result<()>;
        fn mk_str(id: u64) -> UniquePtr<CxxString>;
        fn mk_sp_str(id: u64) -> SharedPtr<CxxString>;
        fn mk_vstr(id: u64) -> UniquePtr<CxxVector<CxxString>>;
        fn mk_vobj(id: u64) -> UniquePtr<CxxVector<Obj>>;
        fn set_cvstr(v: Pin<&mut CxxVector<CxxString>>, id: u64);
        fn set_cvobj(v: Pin<&mut CxxVector<Obj>>, id: u64);
        fn set_cvu8(v: Pin<&mut CxxVector<u8>>, id: u64);
        fn sp_use_count(p: &SharedPtr<Obj>) -> usize;
        fn wp_use_count(p: &WeakPtr<Obj>) -> usize;
        include!("rtsim/cxx/gen_fns.h");
        {chr(10).join("        "+d for d in cx_decl)}
    }}
    extern "Rust" {{
        #[derive(ExternType)]
        type RObj;
        fn robj_new(id: u64) -> Box<RObj>;
        fn robj_id(self: &RObj) -> u64;
        fn robj_set(self: &mut RObj, id: u64);
        fn robj_panic_on_drop(self: &mut RObj, tag: u64);
        fn vec_robj_new(id: u64) -> Vec<RObj>;
        fn r_raise(tag: u64) -> Result<()>;
        fn r_raise2(id: u64) -> Result<()>;
        {chr(10).join("        "+d for d in r_decl)}
    }}
    impl CxxVector<Txt> {{}}
    impl CxxVector<Pod> {{}}
    impl Box<Txt> {{}}
    impl UniquePtr<Pod> {{}}
    impl UniquePtr<Txt> {{}}
    impl SharedPtr<Pod> {{}}
    impl WeakPtr<Pod> {{}}
    impl SharedPtr<Txt> {{}}
    impl WeakPtr<Txt> {{}}
    impl Vec<Txt> {{}}
    impl Vec<Tok> {{}}
}}
''')
open("src/gen_alt.rs","w").write(T+f'''
#[cxx::bridge(namespace = "rt")]
pub mod alt {{
    unsafe extern "C++" {{
        include!("rtsim/cxx/alt.h");
        type Obj = crate::ffi::Obj;
        type Tok = crate::user::Tok;
        type Txt = crate::ffi::Txt;
        type Rec = crate::ffi::Rec;
        {chr(10).join("        "+d for d in alt_decl)}
    }}
}}
''')
open("src/gen_callees.rs","w").write(T+"use crate::user::*;\nuse crate::user::{RObj, Tok};\nuse crate::ffi::*;\nuse crate::calls::*;\nuse cxx::{CxxString, CxxVector, SharedPtr, UniquePtr, WeakPtr};\nuse std::pin::Pin;\nuse std::os::raw::c_char;\n"+"\n".join(i.replace("fn r_","pub fn r_",1) if i.startswith("fn r_") or "] fn r_" in i else i for i in rs_impl)+"\n")
arms="\n".join(f"        {i} => {a}," for i,((n,d,s,k,f),a) in enumerate(zip([x for x in fns if x[1]==0],drv_rs)))
narms="\n".join(f"    Fun {{ name: \"{n}\", dir: {d}, shape: \"{s}\", kind: \"{k}\", fallible: {f}, idx: {i} }}," for lst in [[x for x in fns if x[1]==0],[x for x in fns if x[1]==1]] for i,(n,d,s,k,f) in enumerate(lst))
open("src/gen_drive.rs","w").write(T+f'''use crate::gen_alt::alt;
use crate::calls::*;
use crate::ffi;
use crate::ffi::*;
use crate::user::*;
use crate::user::{{RObj, Tok}};
use cxx::{{CxxString, CxxVector, SharedPtr, UniquePtr, WeakPtr}};
use std::cell::RefCell;
pub struct Fun {{ pub name: &'static str, pub dir: u8, pub shape: &'static str, pub kind: &'static str, pub fallible: u8, pub idx: u32 }}
pub static FUNS: &[Fun] = &[
{narms}
];
pub fn drive(idx: u32, tag: u64) {{
    match idx {{
{arms}
        _ => unreachable!(),
    }}
}}
''')
open("cxx/gen_methods.h","w").write(T+"#define OBJ_METHODS "+" ".join(m_obj)+"\n")
open("cxx/gen_fns.h","w").write(T+'#pragma once\n#include "rtsim/cxx/types.h"\nnamespace rt {\n'+"\n".join(h)+"\n}\n")
# split definitions over several files
N=4
for k in range(N):
    open(f"cxx/gen_callees{k}.cc","w").write(T+'#include "rtsim/cxx/calls.h"\nnamespace rt {\n'+"\n".join(cc[k::N])+"\n}\n")
drs=[x for x in fns if x[1]==1]
for k in range(N):
    ar="\n".join(f"  case {i}: {a if a.endswith('}') else a.rstrip(';')+';'} break;" for i,a in enumerate(drv_cc) if i%N==k)
    open(f"cxx/gen_drive{k}.cc","w").write(T+f'#include "rtsim/cxx/calls.h"\nnamespace rt {{\nvoid drive_part{k}(uint32_t idx, uint64_t tag) {{\n  switch (idx) {{\n{ar}\n  default: abort();\n  }}\n}}\n}}\n')
open("cxx/alt.h","w").write(T+'''#pragma once
#include "rtsim/cxx/types.h"
#include "rtsim/cxx/trycatch.h"
#include "rtsim/src/gen_bridge.rs.h"
namespace rt {
'''+"\n".join(alt_h)+"\n}\n")
open("cxx/gen_alt.cc","w").write(T+'#include "rtsim/cxx/calls.h"\n#include "rtsim/cxx/alt.h"\nnamespace rt {\n'+"\n".join(alt_cc)+"\n}\n")
print(len(fns),"functions",len(drv_rs),len(drv_cc))

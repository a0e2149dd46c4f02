// The C++ side's user code: types with identity, the body of callees, observation of errors.
#include "rtsim/cxx/calls.h"
namespace rt {
thread_local int64_t t_elem_fault;
thread_local uint64_t t_elem_ctor;
thread_local std::shared_ptr<Obj> *t_keeper;

Obj::Obj(uint64_t id) : payload(new uint64_t(id)), text(rt::text(id & 15)) {
  elem_point();
  sim_obj_new(this, KIND_OBJ);
}
Obj::Obj(const Obj &o) : payload(new uint64_t(o.id())), text(o.text) {
  elem_point();
  sim_obj_new(this, KIND_OBJ);
}
Obj::Obj(Obj &&o) noexcept : payload(std::move(o.payload)), text(std::move(o.text)) { sim_obj_new(this, KIND_OBJ); }
Obj &Obj::operator=(const Obj &o) {
  if (!sim_obj_live(this, KIND_OBJ) || !sim_obj_live(&o, KIND_OBJ)) sim_violation_fatal(V_OWN, "assignment with a dead object");
  elem_point();
  payload.reset(o.payload ? new uint64_t(*o.payload) : nullptr);
  text = o.text;
  return *this;
}
Obj::~Obj() { sim_obj_del(this, KIND_OBJ); }
void Obj::self_check(uint64_t tag) const {
  if (!sim_obj_live(this, KIND_OBJ)) bad(V_OWN, tag, "method called on something that is not a live object");
  if (id() != opx(tag)) bad(V_VAL, tag, "method receiver");
}

static uint64_t *tok_new(uint64_t id) {
  uint64_t *p = new uint64_t(id);
  sim_obj_new(p, KIND_TOK);
  return p;
}
Tok::Tok(uint64_t id) {
  elem_point();
  p = tok_new(id);
}
Tok::Tok(const Tok &o) {
  elem_point();
  p = o.p ? tok_new(*o.p) : nullptr;
}
Tok &Tok::operator=(const Tok &o) {
  Tok t(o);
  std::swap(p, t.p);
  return *this;
}
Tok::~Tok() {
  if (p) {
    sim_obj_del(p, KIND_TOK);
    delete p;
  }
}
extern "C" uint64_t *rt_tok_new(uint64_t id) { return tok_new(id); }
extern "C" void rt_tok_del(uint64_t *p) {
  if (p) {
    sim_obj_del(p, KIND_TOK);
    delete p;
  }
}
static_assert(sizeof(Tok) == sizeof(void *), "");

uint64_t obj_id(const Obj &o) { return o.id(); }
std::unique_ptr<Obj> obj_new(uint64_t id) { return std::unique_ptr<Obj>(new Obj(id)); }
std::shared_ptr<Obj> obj_new_shared(uint64_t id) {
  if (id & 1) return std::shared_ptr<Obj>(new Obj(id));
  return std::make_shared<Obj>(id);
}
std::shared_ptr<Obj> keeper() { return *t_keeper; }
void obj_set(Obj &o, uint64_t id) { o.set(id); }
std::unique_ptr<std::string> mk_str(uint64_t id) { return std::unique_ptr<std::string>(new std::string(text(id))); }
std::shared_ptr<std::string> mk_sp_str(uint64_t id) { return std::make_shared<std::string>(text(id)); }
std::unique_ptr<std::vector<std::string>> mk_vstr(uint64_t id) {
  return std::unique_ptr<std::vector<std::string>>(new std::vector<std::string>(make<std::vector<std::string>>(id)));
}
std::unique_ptr<std::vector<Obj>> mk_vobj(uint64_t id) {
  return std::unique_ptr<std::vector<Obj>>(new std::vector<Obj>(make<std::vector<Obj>>(id)));
}
void set_cvstr(std::vector<std::string> &v, uint64_t id) { v = make<std::vector<std::string>>(id); }
void set_cvobj(std::vector<Obj> &v, uint64_t id) { v = make<std::vector<Obj>>(id); }
void set_cvu8(std::vector<uint8_t> &v, uint64_t id) { v = make<std::vector<uint8_t>>(id); }
size_t sp_use_count(const std::shared_ptr<Obj> &p) { return (size_t)p.use_count(); }
size_t wp_use_count(const std::weak_ptr<Obj> &p) { return (size_t)p.use_count(); }

extern "C" void rt_keeper_new(uint64_t id) { t_keeper = new std::shared_ptr<Obj>(std::make_shared<Obj>(id)); }
extern "C" void rt_keeper_del() {
  if (t_keeper->use_count() != 1) bad(V_OWN, 0, "the thread's shared object has owners left at the end of the run");
  delete t_keeper;
  t_keeper = nullptr;
}
extern "C" void rt_warmup() {
  try {
    throw std::runtime_error("warm up");
  } catch (const std::exception &) {
  }
}

void bad(int cls, uint64_t tag, const char *what) { h_bad(cls, tag, what); }

void drive_part0(uint32_t, uint64_t);
void drive_part1(uint32_t, uint64_t);
void drive_part2(uint32_t, uint64_t);
void drive_part3(uint32_t, uint64_t);
extern "C" void rt_drive_c2r(uint32_t idx, uint64_t tag) {
  switch (idx % 4) {
  case 0: return drive_part0(idx, tag);
  case 1: return drive_part1(idx, tag);
  case 2: return drive_part2(idx, tag);
  default: return drive_part3(idx, tag);
  }
}

[[noreturn]] static void raise(uint64_t tag, uint32_t how) {
  h_ops[tag].state |= H_THREW;
  switch (how) {
  case O_FAIL: {
    int q = sim_quiet();
    std::string m = msg(h_ops[tag].msg);
    sim_resume(q);
    throw std::runtime_error(m);
  }
  case O_FAIL2: {
    int q = sim_quiet();
    std::string m = msg(h_ops[tag].msg);
    sim_resume(q);
    if (h_ops[tag].a[1] == 2) { // only used with the user's own trycatch: any text, NUL included
      m.push_back('\0');
      m += "tail";
      throw NotStd{m};
    }
    throw MyEx(std::move(m));
  }
  default: abort();
  }
}

void body(uint64_t tag, bool) {
  uint32_t o = h_ops[tag].outcome;
  // nested operations that C++ starts run below this frame directly
  for (uint64_t i = tag + 1; i < h_nops; i++)
    if (h_ops[i].parent == (int32_t)tag && h_ops[i].f != H_CB) {
      if (h_ops[i].a[2] == 1) rt_drive_c2r(h_drive_idx(i), i);
      else h_nested_one(i);
    }
  sim_yield();
  switch (o) {
  case O_OK:
  case O_SAME:
  case O_ALLOC: break;
  case O_RUSTERR:
    h_ops[tag].state |= H_THREW;
    r_raise(tag); // throws rust::Error
    bad(V_ERR, tag, "a Rust function returned Err but the C++ caller saw no exception");
    break;
  case O_FATAL: // a std::exception leaves a function that may not throw
    h_fatal(tag, 0);
    raise(tag, O_FAIL);
  case O_FATAL2: // not a std::exception
    h_fatal(tag, 1);
    if (h_ops[tag].msg & 1) throw 42;
    throw NotStd{"not std"};
  default: raise(tag, o);
  }
  h_ops[tag].state |= H_DONE;
}

void c_raise(uint64_t tag) {
  int q = sim_quiet();
  std::string m = msg(h_ops[tag].msg);
  sim_resume(q);
  throw std::runtime_error(m);
}
rust::Box<RObj> self_robj(uint64_t tag) {
  int q = sim_quiet();
  struct R { int q; ~R() { sim_resume(q); } } r{q};
  return robj_new(opx(tag));
}
void arm_drop(uint64_t tag, const rust::Box<RObj> &b) {
  if (h_ops[tag].outcome == O_FATAL4) const_cast<rust::Box<RObj> &>(b)->robj_panic_on_drop(tag);
}
void returned(uint64_t tag) { h_result(tag, 1, nullptr, 0); }
void caught_rust(uint64_t tag, const rust::Error &e) {
  const char *w = e.what();
  h_result(tag, 2, w, strlen(w));
  if (h_ops[tag].a[1] & 4) { // errors are values: copies and moves keep the text
    rust::Error c(e);
    rust::Error m(std::move(c));
    rust::Error d(m);
    d = e;
    c = m;
    d = std::move(m);
    if (std::strcmp(d.what(), w) != 0 || std::strcmp(c.what(), w) != 0) bad(V_ERR, tag, "text of a copied rust::Error");
    rust::Error &self = d;
    d = self;
    if (d.what() == nullptr || std::strcmp(d.what(), w) != 0) bad(V_ERR, tag, "text of a rust::Error assigned to itself");
    try { // over the text of another error
      r_raise2(h_ops[tag].msg * 31 + 7);
    } catch (const rust::Error &o) {
      std::string was = o.what();
      rust::Error f(o), g(o), k(e);
      f = e;
      k = o;
      g = rust::Error(e);
      if (std::strcmp(f.what(), w) != 0 || std::strcmp(g.what(), w) != 0 || k.what() != was || o.what() != was) bad(V_ERR, tag, "text of an assigned rust::Error");
    }
  }
}
void caught(uint64_t tag, const std::exception &e) {
  const char *w = e.what();
  h_result(tag, 3, w, strlen(w));
}
} // namespace rt

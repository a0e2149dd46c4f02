// generated by gen.py
#define OBJ_METHODS uint32_t m_x_u32(uint64_t tag, uint32_t x); uint32_t m_t_u32(uint64_t tag, uint32_t x) const; Txt m_x_txt(uint64_t tag, Txt x); Txt m_t_txt(uint64_t tag, Txt x) const; Rec m_x_rec(uint64_t tag, Rec x); Rec m_t_rec(uint64_t tag, Rec x) const; Tok m_x_tok(uint64_t tag, Tok x); Tok m_t_tok(uint64_t tag, Tok x) const; rust::Box<RObj> m_x_box_robj(uint64_t tag, rust::Box<RObj> x); rust::Box<RObj> m_t_box_robj(uint64_t tag, rust::Box<RObj> x) const; std::unique_ptr<Obj> m_x_up_obj(uint64_t tag, std::unique_ptr<Obj> x); std::unique_ptr<Obj> m_t_up_obj(uint64_t tag, std::unique_ptr<Obj> x) const; std::shared_ptr<Obj> m_x_sp_obj(uint64_t tag, std::shared_ptr<Obj> x); std::shared_ptr<Obj> m_t_sp_obj(uint64_t tag, std::shared_ptr<Obj> x) const; rust::String m_x_string(uint64_t tag, rust::String x); rust::String m_t_string(uint64_t tag, rust::String x) const; rust::Vec<Txt> m_x_vec_txt(uint64_t tag, rust::Vec<Txt> x); rust::Vec<Txt> m_t_vec_txt(uint64_t tag, rust::Vec<Txt> x) const;

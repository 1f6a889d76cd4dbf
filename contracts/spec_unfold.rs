// Generated by tools/mkunfold.py from spec_parse.rs: the defining equations of the document language,
// one lemma each (all verified), so that a proof can use exactly the ones it needs.
pub proof fn unfold_sp_full(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>) ensures sp_full(c, st, ps, d, b) == ({
    match sp_prim(c, st, ps, d, b) {
        Err(e) => Err(e),
        Ok((v, st1)) => if !(st.p < st1.p <= c.s.len()) { err(c, K::Other) } else {
            match sp_chain(c, st1, ps, d, b, seq![(v, ln(c.s, st.p), cl(c.s, st.p))], Seq::empty()) {
                Err(e) => Err(e),
                Ok((vals, ops, st2)) => match sp_value_end(c, st2.p, b) {
                    Err(e) => Err(e),
                    Ok(_) => match sp_fold(c, vals[0].0, vals.skip(1), ops) { Err(e) => Err(e), Ok(w) => Ok((w, st2)) },
                },
            }
        },
    }
}) { reveal(sp_chain); reveal_with_fuel(sp_full, 2); reveal(sp_prim); }
pub proof fn unfold_sp_chain(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, vals: Seq<(V, int, int)>, ops: Seq<BinaryOp>) ensures sp_chain(c, st, ps, d, b, vals, ops) == ({
    match at(c.s, st.p) {
        None => Ok((vals, ops, st)),
        Some(ch) => match op_of(ch) {
            None => Ok((vals, ops, st)),
            Some(op) => {
                let q = st.p + 1;
                if q >= c.s.len() { e_end(c, q) } else {
                    match sp_prim(c, St { p: q, ..st }, ps, d, b) {
                        Err(e) => Err(e),
                        Ok((v2, st2)) => if !(q < st2.p <= c.s.len()) { err(c, K::Other) } else if op is Mult || op is Div || op is Mod {
                            match sp_bin(c, vals.last().0, v2, op, ln(c.s, q), cl(c.s, q)) {
                                Err(e) => Err(e),
                                Ok(w) => sp_chain(c, st2, ps, d, b, vals.drop_last().push((w, vals.last().1, vals.last().2)), ops),
                            }
                        } else { sp_chain(c, st2, ps, d, b, vals.push((v2, ln(c.s, q), cl(c.s, q))), ops.push(op)) },
                    }
                }
            }
        },
    }
}) { reveal_with_fuel(sp_chain, 2); reveal(sp_prim); }
pub proof fn unfold_sp_prim(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>) ensures sp_prim(c, st, ps, d, b) == ({
    match at(c.s, st.p) {
        None => err(c, K::Other),
        Some(ch) =>
            if d > 65 { err(c, K::Other) }
            else if ch == '"' { match sp_str(c, st.p) { Ok((v, q)) => Ok((v, St { p: q, ..st })), Err(e) => Err(e) } }
            else if ch == '{' { sp_obj(c, st, d + 1) }
            else if ch == '[' { sp_arr(c, st, ps, d + 1) }
            else if ch == '(' { sp_tup(c, st, ps, d + 1) }
            else if ch == '<' { sp_include(c, st, ps, d + 1) }
            else if ch == '+' { sp_unary(c, st, ps, d, b, UnaryOp::Plus) }
            else if ch == '-' { sp_unary(c, st, ps, d, b, UnaryOp::Minus) }
            else if is_digit_c(ch) || ch == '.' || ch == ',' { match sp_num(c, st.p) { Ok((v, q)) => Ok((v, St { p: q, ..st })), Err(e) => Err(e) } }
            else if field_char(ch, true) || ch == '@' { sp_var(c, st, ps, d, b, false) }
            else { e_char(c, st.p) },
    }
}) { reveal(sp_arr); reveal(sp_include); reveal(sp_obj); reveal_with_fuel(sp_prim, 2); reveal(sp_tup); reveal(sp_unary); reveal(sp_var); }
pub proof fn unfold_sp_unary(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, op: UnaryOp) ensures sp_unary(c, st, ps, d, b, op) == ({
    if d > 64 { e_depth(c, st.p) } else {
        let q = st.p + 1;
        if q >= c.s.len() { e_end(c, q) } else {
            match sp_prim(c, St { p: q, ..st }, ps, d + 1, b) {
                Err(e) => Err(e),
                Ok((v, st2)) => match sp_un(c, v, op, ln(c.s, q), cl(c.s, q)) { Ok(w) => Ok((w, st2)), Err(e) => Err(e) },
            }
        }
    }
}) { reveal(sp_prim); reveal_with_fuel(sp_unary, 2); }
pub proof fn unfold_sp_var(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, ad: bool) ensures sp_var(c, st, ps, d, b, ad) == ({
    if d > 64 { e_depth(c, st.p) } else {
        let glob = at(c.s, st.p) == Some('@');
        match if glob { var_scan(c.s, st.p + 1, seq!['@']) } else { var_scan(c.s, st.p, Seq::empty()) } {
            VarScan::Bad(q) => e_char(c, q),
            VarScan::End(q) => e_end(c, q),
            VarScan::Done(name, q, dot, dotg) => match sp_lookup(c, st.g, ps, name, glob, ln(c.s, st.p), cl(c.s, st.p), b, ad) {
                Err(e) => Err(e),
                Ok(v) => if !dot { Ok((v, St { p: q, ..st })) } else {
                    match v {
                        V::Arr(vs, _) => match sp_prim(c, St { p: q, ..st }, ps, d + 1, b) {
                            Err(e) => Err(e),
                            Ok((i, st2)) => match sp_index(c, vs, i, q, |k: int| m_arr_bounds(k)) { Ok(w) => Ok((w, st2)), Err(e) => Err(e) },
                        },
                        V::Tup(vs, _) => match sp_prim(c, St { p: q, ..st }, ps, d + 1, b) {
                            Err(e) => Err(e),
                            Ok((i, st2)) => match sp_index(c, vs, i, q, |k: int| m_tup_bounds(k)) { Ok(w) => Ok((w, st2)), Err(e) => Err(e) },
                        },
                        V::Obj(o) => if dotg { err(c, K::ValueChar('@', ln(c.s, q), cl(c.s, q))) } else { sp_var(c, St { p: q, ..st }, all_pairs(o), d + 1, b, true) },
                        _ => err(c, K::BadDot(vtype(v), ln(c.s, st.p), cl(c.s, st.p))),
                    }
                },
            },
        }
    }
}) { reveal(sp_prim); reveal_with_fuel(sp_var, 2); }
pub proof fn unfold_sp_obj(c: Cx, st: St, d: int) ensures sp_obj(c, st, d) == ({
    if d > 64 { e_depth(c, st.p) } else {
        let q = skip(c.s, st.p + 1);
        if !(st.p < q < c.s.len()) { e_end(c, c.s.len() as int) } else {
            match sp_fields(c, St { p: q, ..st }, Seq::empty(), None, d, Some('}')) {
                Err(e) => Err(e),
                Ok((o, st2)) => Ok((V::Obj(o), st2)),
            }
        }
    }
}) { reveal(sp_fields); reveal_with_fuel(sp_obj, 2); }
pub proof fn unfold_sp_fields(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, par: Option<O>, d: int, b: Option<char>) ensures sp_fields(c, st, ps, par, d, b) == ({
    match sp_pair(c, st, ps, par, d, b) {
        Err(e) => Err(e),
        Ok((more, ps2, par2, st2)) =>
            if !more { Ok((O { pairs: ps2, parent: match par2 { Some(o) => Some(Box::new(o)), None => None }, tag: 0 }, st2)) }
            else if !(st.p < st2.p <= c.s.len()) { err(c, K::Other) }
            else { sp_fields(c, st2, ps2, par2, d, b) },
    }
}) { reveal_with_fuel(sp_fields, 2); reveal(sp_pair); }
pub proof fn unfold_sp_pair(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, par: Option<O>, d: int, b: Option<char>) ensures sp_pair(c, st, ps, par, d, b) == ({
    match at(c.s, st.p) {
        None => err(c, K::Other),
        Some(ch) =>
            if ch == '}' && b is Some { Ok((false, ps, par, St { p: st.p + 1, ..st })) }
            else if end_delim(ch) { e_close(c, b, st.p) }
            else { match sp_field(c, st.p) {
                Err(e) => Err(e),
                Ok((name, fk, p1)) =>
                    if fk is Global && st.g.dom().contains(name) { err(c, K::DupGlobal(name, ln(c.s, st.p), cl(c.s, st.p))) }
                    else if fk is Parent && par is Some { err(c, K::DupField("^"@, ln(c.s, st.p), cl(c.s, st.p))) }
                    else if fk is Regular && has_field(ps, name) { err(c, K::DupField(name, ln(c.s, st.p), cl(c.s, st.p))) }
                    else {
                        let q = skip(c.s, p1);
                        if !(st.p < q < c.s.len()) { e_end(c, c.s.len() as int) } else {
                            match sp_full(c, St { p: q, ..st }, ps, d, b) {
                                Err(e) => Err(e),
                                Ok((v, st2)) => {
                                    let q2 = skip(c.s, st2.p);
                                    let st3 = St { p: q2, g: if fk is Global { st2.g.insert(name, v) } else { st2.g }, inc: st2.inc };
                                    let ps3 = if fk is Regular { ps.push((name, v)) } else { ps };
                                    let par3 = if fk is Parent && v is Obj { Some(v->Obj_0) } else { par };
                                    if fk is Global && st2.g.dom().contains(name) { err(c, K::DupGlobal(name, ln(c.s, st.p), cl(c.s, st.p))) }
                                    else if fk is Parent && !(v is Obj) { e_over(c, m_mismatch(T::Obj, vtype(v)), q) }
                                    else if q2 >= c.s.len() && b is Some { e_end(c, c.s.len() as int) }
                                    else { Ok((q2 < c.s.len(), ps3, par3, st3)) }
                                }
                            }
                        }
                    },
            } },
    }
}) { reveal(sp_full); reveal_with_fuel(sp_pair, 2); }
pub proof fn unfold_sp_elems(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, vs: Seq<V>, t: Option<T>) ensures sp_elems(c, st, ps, d, b, vs, t) == ({
    let q = skip(c.s, st.p);
    if !(st.p <= q < c.s.len()) { if b is Some { e_end(c, c.s.len() as int) } else { Ok((vs, t, St { p: c.s.len() as int, ..st })) } }
    else if b is Some && c.s[q] == b->Some_0 { Ok((vs, t, St { p: q + 1, ..st })) }
    else if b is Some && end_delim(c.s[q]) { e_close(c, b, q) }
    else {
        match sp_full(c, St { p: q, ..st }, ps, d, b) {
            Err(e) => Err(e),
            Ok((v, st2)) =>
                if !(q < st2.p <= c.s.len()) { err(c, K::Other) }
                else { match t {
                    None => sp_elems(c, st2, ps, d, b, vs.push(v), t),
                    Some(u) => match msp(u, vtype(v)) {
                        None => err(c, K::Expected(u, vtype(v), ln(c.s, q), cl(c.s, q))),
                        Some(w) => sp_elems(c, st2, ps, d, b, vs.push(v), Some(w)),
                    },
                } },
        }
    }
}) { reveal_with_fuel(sp_elems, 2); reveal(sp_full); }
pub proof fn unfold_sp_arr(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int) ensures sp_arr(c, st, ps, d) == ({
    if d > 64 || st.p >= c.s.len() { e_depth(c, st.p) } else {
        match sp_elems(c, St { p: st.p + 1, ..st }, ps, d, Some(']'), Seq::empty(), Some(T::Any)) { Ok((vs, t, st2)) => Ok((V::Arr(vs, t->Some_0), st2)), Err(e) => Err(e) }
    }
}) { reveal_with_fuel(sp_arr, 2); reveal(sp_elems); }
pub proof fn unfold_sp_tup(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int) ensures sp_tup(c, st, ps, d) == ({
    if d > 64 || st.p >= c.s.len() { e_depth(c, st.p) } else {
        match sp_elems(c, St { p: st.p + 1, ..st }, ps, d, Some(')'), Seq::empty(), None) { Ok((vs, _, st2)) => Ok((V::Tup(vs, vtypes(vs)), st2)), Err(e) => Err(e) }
    }
}) { reveal(sp_elems); reveal_with_fuel(sp_tup, 2); }
pub proof fn unfold_sp_doc(c: Cx, inc: Map<(IK, Seq<char>), V>, d: int) ensures sp_doc(c, inc, d) == ({
    let q = skip(c.s, 0);
    if !(0 <= q < c.s.len()) { Ok((O { pairs: Seq::empty(), parent: None, tag: 0 }, inc)) }
    else { match sp_fields(c, St { p: q, g: Map::empty(), inc }, Seq::empty(), None, d, None) { Ok((o, st)) => Ok((o, st.inc)), Err(e) => Err(e) } }
}) { reveal_with_fuel(sp_doc, 2); reveal(sp_fields); }
pub proof fn unfold_sp_seq_doc(c: Cx, inc: Map<(IK, Seq<char>), V>, d: int, t: Option<T>) ensures sp_seq_doc(c, inc, d, t) == ({
    match sp_elems(c, St { p: 0, g: Map::empty(), inc }, Seq::empty(), d, None, Seq::empty(), t) { Ok((vs, u, st)) => Ok((vs, u, st.inc)), Err(e) => Err(e) }
}) { reveal(sp_elems); reveal_with_fuel(sp_seq_doc, 2); }
pub proof fn unfold_sp_load(ik: IK, path: Seq<char>, cyc: Set<Seq<char>>, inc: Map<(IK, Seq<char>), V>, d: int) ensures sp_load(ik, path, cyc, inc, d) == ({
    match fs_read(path) {
        Err(m) => Err(PErr { file: None, kind: K::Io(m) }),
        Ok(s) => {
            let c = Cx { s, file: Some(path), cyc };
            match ik {
                IK::Str => Ok((V::Str(s), inc)),
                IK::Obj => match sp_doc(c, inc, d) { Ok((o, inc2)) => Ok((V::Obj(o), inc2)), Err(e) => Err(e) },
                IK::Arr => match sp_seq_doc(c, inc, d, Some(T::Any)) { Ok((vs, t, inc2)) => Ok((V::Arr(vs, t->Some_0), inc2)), Err(e) => Err(e) },
                IK::Tup => match sp_seq_doc(c, inc, d, None) { Ok((vs, _, inc2)) => Ok((V::Tup(vs, vtypes(vs)), inc2)), Err(e) => Err(e) },
            }
        },
    }
}) { reveal(sp_doc); reveal_with_fuel(sp_load, 2); reveal(sp_seq_doc); }
pub proof fn unfold_sp_resolve(c: Cx, st: St, ik: IK, x: Seq<char>, d: int, l: int, co: int) ensures sp_resolve(c, st, ik, x, d, l, co) == ({
    match inc_names(c.file, x) {
        None => err(c, K::IncPath(x, l, co)),
        Some((path, full)) => {
            let own = match c.file { Some(f) => own_name(f), None => None };
            if c.file is Some && own is None { err(c, K::IncPath(x, l, co)) } else {
                let cyc = match own { Some(o) => c.cyc.insert(o), None => c.cyc };
                if cyc.contains(full) { err(c, K::Cyclic(x, l, co)) }
                else if st.inc.dom().contains((ik, full)) { Ok((st.inc[(ik, full)], st)) }
                else { match sp_load(ik, path, cyc, st.inc, d) { Err(e) => Err(e), Ok((v, inc2)) => Ok((v, St { inc: inc2.insert((ik, full), v), ..st })) } }
            }
        }
    }
}) { reveal(sp_load); reveal_with_fuel(sp_resolve, 2); }
pub proof fn unfold_sp_inc_close(c: Cx, st: St, ik: IK, v: V, d: int, p: int) ensures sp_inc_close(c, st, ik, v, d, p) == ({
    let q = skip(c.s, st.p);
    if !(st.p <= q < c.s.len()) { e_end(c, c.s.len() as int) }
    else if c.s[q] != '>' { e_close(c, Some('>'), q) }
    else { match v { V::Str(x) => sp_resolve(c, St { p: q + 1, ..st }, ik, x, d, ln(c.s, p), cl(c.s, p)), _ => err(c, K::Expected(T::Str, vtype(v), ln(c.s, p), cl(c.s, p))) } }
}) { reveal_with_fuel(sp_inc_close, 2); reveal(sp_resolve); }
pub proof fn unfold_sp_include(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int) ensures sp_include(c, st, ps, d) == ({
    if d > 64 { e_depth(c, st.p) } else {
        let q = skip(c.s, st.p + 1);
        if !(st.p < q < c.s.len()) { e_end(c, c.s.len() as int) } else {
            match sp_full(c, St { p: q, ..st }, ps, d, Some('>')) {
                Err(e) => Err(e),
                Ok((v, st1)) => if v is Str { sp_inc_close(c, st1, IK::Obj, v, d, q) } else {
                    match inc_kind(v) {
                        None => err(c, K::IncToken(vtype(v), ln(c.s, q), cl(c.s, q))),
                        Some(ik) => {
                            let q1 = skip(c.s, st1.p);
                            if !(st.p < q1 < c.s.len()) { e_end(c, c.s.len() as int) } else {
                                match sp_full(c, St { p: q1, ..st1 }, ps, d, Some('>')) { Err(e) => Err(e), Ok((w, st2)) => sp_inc_close(c, st2, ik, w, d, q1) }
                            }
                        }
                    }
                },
            }
        }
    }
}) { reveal(sp_full); reveal(sp_inc_close); reveal_with_fuel(sp_include, 2); }

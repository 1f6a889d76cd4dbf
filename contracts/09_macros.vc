fn clients::arr0 [C02]
  ret r
  ens[C02] made_arr(Ok(r), Seq::empty())
  entry
    lemma_vecs(Seq::empty());
fn clients::arr1 [C02]
  ret r
  req arr_type(vsv(seq![arg_a])) is Some
  ens[C02] made_arr(Ok(r), seq![arg_a])
  entry
    lemma_vecs(seq![arg_a]);
fn clients::arr2 [C02]
  ret r
  req arr_type(vsv(seq![arg_a, arg_b])) is Some
  ens[C02] made_arr(Ok(r), seq![arg_a, arg_b])
  entry
    lemma_vecs(seq![arg_a, arg_b]);
fn clients::try_arr1 [C02]
  ret r
  ens[C02] made_arr(r, seq![arg_a])
  entry
    lemma_vecs(seq![arg_a]);
fn clients::try_arr2 [C02]
  ret r
  ens[C02] made_arr(r, seq![arg_a, arg_b])
  entry
    lemma_vecs(seq![arg_a, arg_b]);
fn clients::try_arr3 [C02]
  ret r
  ens[C02] made_arr(r, seq![arg_a, arg_b, arg_c])
  entry
    lemma_vecs(seq![arg_a, arg_b, arg_c]);
fn clients::tup1 [C02]
  ret r
  ens[C02] made_tup(r, seq![arg_a])
  entry
    lemma_vecs(seq![arg_a]);
fn clients::tup2 [C02]
  ret r
  ens[C02] made_tup(r, seq![arg_a, arg_b])
  entry
    lemma_vecs(seq![arg_a, arg_b]);
fn clients::tup3 [C02]
  ret r
  ens[C02] made_tup(r, seq![arg_a, arg_b, arg_c])
  entry
    lemma_vecs(seq![arg_a, arg_b, arg_c]);
fn clients::obj0 [C05]
  ret r
  ens[C05] r.inner.pairs@.len() == 0 && r.inner.parent is None
fn clients::obj1 [C05 C06]
  ret r
  req !bad_up(seq![(arg_f@, arg_a)]) && names_ok(seq![(arg_f@, arg_a)])
  ens[C05] made_obj(r, seq![(arg_f@, arg_a)])
  entry
    lemma_names(); lemma_entries1(arg_f@, arg_a);
    reveal_strlit("^"); assert("^"@ =~= seq!['^']);
fn clients::obj2 [C05 C06]
  ret r
  req !bad_up(seq![(arg_f@, arg_a), (arg_g@, arg_b)]) && names_ok(seq![(arg_f@, arg_a), (arg_g@, arg_b)])
  ens[C05] made_obj(r, seq![(arg_f@, arg_a), (arg_g@, arg_b)])
  entry
    lemma_names(); lemma_entries2(arg_f@, arg_a, arg_g@, arg_b);
    reveal_strlit("^"); assert("^"@ =~= seq!['^']);
fn clients::try_obj1 [C05 C06]
  ret r
  ens[C06] accepted(r, seq![(arg_f@, arg_a)])
  ens[C05] r matches Ok(o) ==> made_obj(o, seq![(arg_f@, arg_a)])
  entry
    lemma_names(); lemma_entries1(arg_f@, arg_a);
    reveal_strlit("^"); assert("^"@ =~= seq!['^']);
fn clients::try_obj2 [C05 C06]
  ret r
  ens[C06] accepted(r, seq![(arg_f@, arg_a), (arg_g@, arg_b)])
  ens[C05] r matches Ok(o) ==> made_obj(o, seq![(arg_f@, arg_a), (arg_g@, arg_b)])
  entry
    lemma_names(); lemma_entries2(arg_f@, arg_a, arg_g@, arg_b);
    reveal_strlit("^"); assert("^"@ =~= seq!['^']);

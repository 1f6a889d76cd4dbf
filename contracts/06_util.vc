fn parse::util::get_escape_char [C07]
  ret r
  ens[C07] r == unesc(ch)
fn parse::util::is_value_end_char [C18]
  ret r
  ens[C18] r == value_end(ch)
fn parse::util::is_whitespace [C13]
  ret r
  ens[C13] r == (is_ws(ch) || ch == '#')
fn parse::util::is_end_delimiter [C18]
  ret r
  ens[C18] r == end_delim(ch)
fn parse::util::is_numeric_char [C08]
  ret r
  ens[C08] r == (is_digit_c(ch) || ch == '.' || ch == ',')
fn parse::util::is_digit [C08]
  ret r
  ens[C08] r == is_digit_c(ch)
fn parse::util::is_reserved [C06]
  ret r
  ens[C06] r == reserved(field@)
fn parse::util::frac_from_whole_and_dec [C08]
  ret r
  ens[C08] r@ == q_add(rat(whole@, 1), rat(decimal@, ipow(10, dec_len as nat)))
  entry
    lemma_ipow_pos(10, dec_len as nat);
fn parse::util::read_file_str [C16]
  ret r
  ens[C16] r matches Ok(s) ==> fs_read(fname@) == Ok::<Seq<char>, Seq<char>>(s@)
  ens[C16] r matches Err(e) ==> fs_read(fname@) == Err::<Seq<char>, Seq<char>>(e.disp())
fn parse::BinaryOp::is_priority [C09]
  ret r
  ens[C09] r == (*self is Mult || *self is Div || *self is Mod)
fn parse::BinaryOp::is_op [C09]
  ret r
  ens[C09] r == (op_of(ch) is Some)
fn parse::BinaryOp::get_op [C09]
  ret r
  ens[C09] r == op_of(ch)

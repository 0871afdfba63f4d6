#module raw
#file raw.rs
#raw
use crate::vx::*;
use crate::vstring::*;
use crate::comp::*;
use crate::parser::trusted as trusted_parser;
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx, crate::vx::lemma_str_dec};
#fn remove_fragment call=.find->.vx_find_char call=.truncate->.vx_truncate
#ensures final(s).sb() == before_fragment(old(s).sb())
#proof start
    proof { lemma_first_hash(old(s).sb()); lemma_sb_valid(*old(s)); }
#fn set_fragment call=.reserve->.vx_reserve call=.push->.vx_push call=.push_str->.vx_push_str call=.len->.vx_len
#ensures final(s).sb() == before_fragment(old(s).sb()) + (match fragment { Some(f) => seq![0x23u8] + f.spec_bytes(), None => seq![] })
#proof start
    proof { lemma_enc1('#'); }
#fn split_fragment_owned call=.split_off->.vx_split_off call=.pop->.vx_pop call=.len->.vx_len co=s
#ensures r.0.sb() == before_fragment(s.sb()), match r.1 { Some(f) => c_fragment(s.sb()) == Some(f.sb()), None => c_fragment(s.sb()) is None }
#proof start
    proof { lemma_first_hash(s.sb()); lemma_sb_valid(s); }

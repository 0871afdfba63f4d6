#module components
#file components.rs
#raw
use core::ops::{Range, RangeFrom, RangeTo};
use crate::vx::*;
use crate::grammar::*;
use crate::comp::*;
use crate::spec::*;
use crate::types::*;
use crate::parser::trusted as trusted_parser;
use crate::parser::trusted::ob;
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx, crate::vx::lemma_str_dec};
pub open spec fn nz(o: Option<NonZeroUsize>) -> int { match o { Some(x) => x.sv() as int, None => -1 } }
#item struct Splitter
#raw
impl Splitter {
    /// the stored positions are the component positions of `b`
    pub open spec fn wf(self, b: Seq<u8>) -> bool {
        nz(self.scheme_end) == sch_end(b)
        && nz(self.authority_end) == (if r_has_auth(rest(b)) { auth_end(b) } else { -1 })
        && nz(self.query_start) == query_start(b)
        && nz(self.fragment_start) == frag_start(b)
    }
}
#item struct RiReferenceComponents
#file components.rs
#fn Splitter::new
#ensures r.scheme_end == scheme_end, r.authority_end == authority_end, r.query_start == query_start, r.fragment_start == fragment_start
#fn Splitter::split_into_major
#requires self.wf(s.spec_bytes())
#ensures ({ let b = s.spec_bytes(); ob(r.0) == c_scheme(b) && ob(r.1) == c_authority(b) && r.2.spec_bytes() == c_path(b) && ob(r.3) == c_query(b) && ob(r.4) == c_fragment(b) })
#proof start
    proof { lemma_positions(s.spec_bytes()); }
#fn Splitter::scheme_range
#ensures match r { Some(x) => nz(self.scheme_end) == x.end, None => self.scheme_end is None }
#closure 0 |end: NonZeroUsize| -> (r: core::ops::RangeTo<usize>) ensures r.end == end.sv()
#fn Splitter::scheme_str rangeidx
#requires self.wf(s.spec_bytes())
#ensures ob(r) == c_scheme(s.spec_bytes())
#closure 0 |range: core::ops::RangeTo<usize>| -> (r: &str) requires range.end <= s.spec_bytes().len(), is_char_boundary(s.spec_bytes(), range.end as int) ensures r.spec_bytes() == pfx(s.spec_bytes(), range.end as int)
#proof start
    proof { lemma_positions(s.spec_bytes()); }
#fn Splitter::has_scheme
#ensures r == (self.scheme_end is Some)
#fn Splitter::authority_range
#requires self.authority_end is Some ==> nz(self.scheme_end) + 3 <= usize::MAX
#ensures match r { Some(x) => nz(self.authority_end) == x.end && x.start == nz(self.scheme_end) + 3, None => self.authority_end is None }
#closure 0 |v: NonZeroUsize| -> (r: usize) requires v.sv() + 3 <= usize::MAX ensures r == v.sv() + 3
#fn Splitter::authority_str rangeidx
#requires self.wf(s.spec_bytes())
#ensures ob(r) == c_authority(s.spec_bytes())
#closure 0 |range: core::ops::Range<usize>| -> (r: &str) requires range.start <= range.end <= s.spec_bytes().len(), is_char_boundary(s.spec_bytes(), range.start as int), is_char_boundary(s.spec_bytes(), range.end as int) ensures r.spec_bytes() == s.spec_bytes().subrange(range.start as int, range.end as int)
#proof start
    proof { lemma_positions(s.spec_bytes()); }
#fn Splitter::has_authority
#ensures r == (self.authority_end is Some)
#fn Splitter::path_range
#requires exists|b: Seq<u8>| #[trigger] self.wf(b) && b.len() == full_len && valid_utf8(b)
#ensures forall|b: Seq<u8>| #[trigger] self.wf(b) && b.len() == full_len && valid_utf8(b) ==> r.start == path_start(b) && r.end == path_end(b)
#closure 0 |v: NonZeroUsize| -> (r: usize) ensures r == v.sv() - 1
#closure 1 || -> (r: usize) requires nz(self.scheme_end) + 1 <= usize::MAX ensures r == nz(self.scheme_end) + 1
#closure 2 |v: NonZeroUsize| -> (r: usize) requires v.sv() + 1 <= usize::MAX ensures r == v.sv() + 1
#fn Splitter::path_str rangeidx
#requires self.wf(s.spec_bytes())
#ensures r.spec_bytes() == c_path(s.spec_bytes())
#proof start
    proof { lemma_positions(s.spec_bytes()); }
#fn Splitter::is_path_empty
#requires exists|b: Seq<u8>| #[trigger] self.wf(b) && b.len() == full_len && valid_utf8(b)
#ensures forall|b: Seq<u8>| #[trigger] self.wf(b) && b.len() == full_len && valid_utf8(b) ==> r == (c_path(b).len() == 0)
#fn Splitter::query_range
#ensures match r { Some(x) => nz(self.query_start) == x.start && x.end == (match self.fragment_start { Some(v) => v.sv() - 1, None => full_len as int }), None => self.query_start is None }
#closure 0 |v: NonZeroUsize| -> (r: usize) ensures r == v.sv() - 1
#fn Splitter::query_str rangeidx
#requires self.wf(s.spec_bytes())
#ensures ob(r) == c_query(s.spec_bytes())
#closure 0 |range: core::ops::Range<usize>| -> (r: &str) requires range.start <= range.end <= s.spec_bytes().len(), is_char_boundary(s.spec_bytes(), range.start as int), is_char_boundary(s.spec_bytes(), range.end as int) ensures r.spec_bytes() == s.spec_bytes().subrange(range.start as int, range.end as int)
#proof start
    proof { lemma_positions(s.spec_bytes()); }
#fn Splitter::has_query
#ensures r == (self.query_start is Some)
#fn Splitter::fragment_range
#ensures match r { Some(x) => nz(self.fragment_start) == x.start, None => self.fragment_start is None }
#closure 0 |v: NonZeroUsize| -> (r: core::ops::RangeFrom<usize>) ensures r.start == v.sv()
#fn Splitter::fragment_str rangeidx
#requires self.wf(s.spec_bytes())
#ensures ob(r) == c_fragment(s.spec_bytes())
#closure 0 |range: core::ops::RangeFrom<usize>| -> (r: &str) requires range.start <= s.spec_bytes().len(), is_char_boundary(s.spec_bytes(), range.start as int) ensures r.spec_bytes() == sfx(s.spec_bytes(), range.start as int)
#proof start
    proof { lemma_positions(s.spec_bytes()); }
#fn RiReferenceComponents::to_major
#requires self.splitter.wf(self.iri.bytes())
#ensures ({ let b = self.iri.bytes(); ob(r.0) == c_scheme(b) && ob(r.1) == c_authority(b) && r.2.spec_bytes() == c_path(b) && ob(r.3) == c_query(b) && ob(r.4) == c_fragment(b) })
#fn RiReferenceComponents::iri
#ensures r == self.iri
#fn RiReferenceComponents::scheme_str
#requires self.splitter.wf(self.iri.bytes())
#ensures ob(r) == c_scheme(self.iri.bytes())
#fn RiReferenceComponents::authority_str
#requires self.splitter.wf(self.iri.bytes())
#ensures ob(r) == c_authority(self.iri.bytes())
#fn RiReferenceComponents::path_str
#requires self.splitter.wf(self.iri.bytes())
#ensures r.spec_bytes() == c_path(self.iri.bytes())
#fn RiReferenceComponents::query_str
#requires self.splitter.wf(self.iri.bytes())
#ensures ob(r) == c_query(self.iri.bytes())
#fn RiReferenceComponents::<From>::from rename=from_reference
#ensures r.iri == s, r.splitter.wf(s.bytes())
#end

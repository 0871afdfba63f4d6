#module resolve
#file resolve.rs
#raw
use crate::vx::*;
use crate::comp::*;
use crate::grammar::*;
use crate::compose::*;
use crate::spec::*;
use crate::types::*;
use crate::components::*;
use crate::parser::trusted::ob;
use crate::normalize::*;
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx, crate::vx::lemma_str_dec};
#item struct FixedBaseResolver
#raw
impl<'a, S: Spec> FixedBaseResolver<'a, S> {
    /// the resolver of an absolute identifier
    pub open spec fn wf(self) -> bool { self.base_components.splitter.wf(self.bb()) && g_absolute(self.bb(), S::iri()) }
    pub open spec fn bb(self) -> Seq<u8> { self.base_components.iri.bytes() }
}
#fn FixedBaseResolver::new call=RiReferenceComponents::from->RiReferenceComponents::from_reference
#ensures r.wf(), r.bb() == base.bytes()
#proof start
    proof { base.valid(); }
#fn FixedBaseResolver::base
#requires self.wf()
#ensures r.bytes() == self.bb()
#fn FixedBaseResolver::scheme_str
#requires self.wf()
#ensures Some(r.spec_bytes()) == c_scheme(self.bb())
#proof start
    proof { self.base_components.iri.valid(); lemma_ok_parts(self.bb(), S::iri()); }
#fn FixedBaseResolver::authority_str
#requires self.wf()
#ensures ob(r) == c_authority(self.bb())
#fn FixedBaseResolver::path_str
#requires self.wf()
#ensures r.spec_bytes() == c_path(self.bb())
#fn FixedBaseResolver::query_str
#requires self.wf()
#ensures ob(r) == c_query(self.bb())
#fn FixedBaseResolver::query
#requires self.wf()
#ensures match r { Some(q) => Some(q.bytes()) == c_query(self.bb()), None => c_query(self.bb()) is None }
#proof start
    proof { self.base_components.iri.valid(); lemma_ok_parts(self.bb(), S::iri()); }
#fn FixedBaseResolver::resolve
#requires self.wf()
#ensures r.input.is_target(self.bb(), reference.bytes()), r.input.wf(), r.input.vw(S::iri())
#proof start
    proof { self.base_components.iri.valid(); lemma_ok_parts(self.bb(), S::iri()); }
#end

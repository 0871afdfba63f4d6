#module types::reference
#file types/generic/reference.rs
#raw
use crate::vx::*;
use crate::grammar::*;
use crate::comp::*;
use crate::spec::*;
use crate::types::*;
use crate::parser::trusted as trusted_parser;
use crate::parser::trusted::ob;
use crate::parser::char::{Cls, sat};
use crate::components::authority::AuthorityComponents;
use crate::normalize::Normalized;
use crate::resolve::FixedBaseResolver;
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx, crate::vx::lemma_str_dec};
#fn RiReferenceStr::scheme_str
#ensures ob(r) == c_scheme(self.bytes())
#fn RiReferenceStr::authority_str
#ensures ob(r) == c_authority(self.bytes())
#fn RiReferenceStr::path_str
#ensures r.spec_bytes() == c_path(self.bytes())
#fn RiReferenceStr::query_str
#ensures ob(r) == c_query(self.bytes())
#fn RiReferenceStr::fragment_str
#ensures ob(r) == c_fragment(self.bytes())
#fn RiReferenceStr::authority_components
#ensures match r { Some(x) => x.wf() && c_authority(self.bytes()) == Some(x.authority.spec_bytes()), None => c_authority(self.bytes()) is None }
#fn RiReferenceStr::resolve_against
#ensures r.input.is_target(base.bytes(), self.bytes()), r.input.wf()
#end

#module components::authority
#file components/authority.rs
#raw
use crate::vx::*;
use crate::grammar::*;
use crate::comp::*;
use crate::spec::*;
use crate::types::*;
use crate::parser::trusted as trusted_parser;
use crate::parser::trusted::ob;
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx, crate::vx::lemma_str_dec};
#item struct AuthorityComponents
#raw
impl<'a> AuthorityComponents<'a> {
    /// the stored positions are those of the host
    pub open spec fn wf(self) -> bool {
        let a = self.authority.spec_bytes();
        (g_authority(a, true) || g_authority(a, false))
        && self.host_start as int == host_start(a) && self.host_end as int == host_stop(a)
    }
}
#file components/authority.rs
#fn AuthorityComponents::from_iri
#ensures match r { Some(x) => x.wf() && c_authority(iri.bytes()) == Some(x.authority.spec_bytes()), None => c_authority(iri.bytes()) is None }
#proof start
    proof { iri.valid(); lemma_authority_valid(iri.bytes(), S::iri()); }
#fn AuthorityComponents::from_iri_get_offset
#requires g_reference(iri.spec_bytes(), true) || g_reference(iri.spec_bytes(), false)
#ensures match r { Some((x, o)) => x.wf() && c_authority(iri.spec_bytes()) == Some(x.authority.spec_bytes()) && o as int + x.authority.spec_bytes().len() == auth_end(iri.spec_bytes()),
    None => c_authority(iri.spec_bytes()) is None }
#proof start
    proof { let b = iri.spec_bytes(); if g_reference(b, true) { lemma_authority_valid(b, true); } else { lemma_authority_valid(b, false); } }
#fn AuthorityComponents::userinfo
#requires self.wf()
#ensures ob(r) == c_userinfo(self.authority.spec_bytes())
#fn AuthorityComponents::host
#requires self.wf()
#ensures r.spec_bytes() == c_host(self.authority.spec_bytes())
#fn AuthorityComponents::reg_name
#requires self.wf()
#ensures ({ let h = c_host(self.authority.spec_bytes()); if is_bracketed(h) || g_ipv4(h) { r is None } else { ob(r) == Some(h) } })
#proof start
    proof { let a = self.authority.spec_bytes(); if g_authority(a, true) { lemma_host_valid(a, true); } else { lemma_host_valid(a, false); } }
#fn AuthorityComponents::port
#requires self.wf()
#ensures ob(r) == c_port(self.authority.spec_bytes())
#end

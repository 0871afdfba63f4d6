#module parser::trusted::authority
#file parser/trusted/authority.rs
#raw
use crate::vx::*;
use crate::grammar::*;
use crate::comp::*;
use crate::parser::str::*;
use crate::parser::char::{Cls, sat};
use crate::parser::trusted::ob;
use crate::components::authority::AuthorityComponents;
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx, crate::vx::lemma_str_dec};
#fn decompose_authority
#requires g_authority(authority.spec_bytes(), true) || g_authority(authority.spec_bytes(), false)
#ensures r.authority == authority, r.wf()
#proof start
    proof {
        let b = authority.spec_bytes();
        if g_authority(b, true) { lemma_port_pos(b, true); } else { lemma_port_pos(b, false); }
        lemma_host_end(sfx(b, host_start(b)));
    }
#fn is_host_reg_name
#requires g_host(host.spec_bytes(), true) || g_host(host.spec_bytes(), false)
#ensures r == !(is_bracketed(host.spec_bytes()) || g_ipv4(host.spec_bytes()))
#closure 0 |s: &str| -> (r: bool) ensures r == g_dec_octet(s.spec_bytes())
#proof tail
    proof { assert(octets@.len() == 4); assert(is_ipv4_addr == (g_dec_octet(octets@[0].spec_bytes()) && g_dec_octet(octets@[1].spec_bytes()) && g_dec_octet(octets@[2].spec_bytes()) && g_dec_octet(octets@[3].spec_bytes()))); }
#proof start
    proof {
        let b = host.spec_bytes();
        if g_ipv4(b) { lemma_ipv4_len(b); }
        if b.len() > 0 && b[0] == 0x5b && !is_bracketed(b) {
            if is_sat(b, Cls::Regname, true) { crate::text::lemma_is_sat_byte(b, Cls::Regname, true, 0); }
            if is_sat(b, Cls::Regname, false) { crate::text::lemma_is_sat_byte(b, Cls::Regname, false, 0); }
        }
    }
#fn is_decimal_repr_of_octet
#ensures r == g_dec_octet(digits@)
#end

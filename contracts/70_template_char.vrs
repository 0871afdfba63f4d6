#module template::parser::char
#file template/parser/char.rs
#raw
// RFC 6570 section 2.1 and 2.3 character classes (ASCII part; `'` is a literal by erratum 6937)
use crate::vx::*;
use crate::parser::char::{alpha, digit, hexdig};
pub open spec fn tlit(c: u8) -> bool {
    c == 0x21 || (0x23 <= c <= 0x24) || c == 0x26 || c == 0x27 || (0x28 <= c <= 0x3b) || c == 0x3d || (0x3f <= c <= 0x5b) || c == 0x5d || c == 0x5f
    || (0x61 <= c <= 0x7a) || c == 0x7e
}
pub open spec fn varstart(c: u8) -> bool { alpha(c) || digit(c) || c == 0x5f }
pub open spec fn varcont(c: u8) -> bool { varstart(c) || c == 0x2e }
#item const CHARS_TABLE_MASK_LITERAL
#item const CHARS_TABLE_MASK_VARCHAR_START
#item const CHARS_TABLE_MASK_VARCHAR_CONTINUE
#item const CHARS_TABLE
#raw
pub open spec fn ok_is_ascii_literal_char(i: int) -> bool { ((CHARS_TABLE[i] & CHARS_TABLE_MASK_LITERAL) != 0) == tlit(i as u8) }
pub open spec fn all_is_ascii_literal_char(i: int) -> bool decreases i { if i <= 0 { true } else { ok_is_ascii_literal_char(i - 1) && all_is_ascii_literal_char(i - 1) } }
proof fn at_is_ascii_literal_char(i: int, k: int) requires all_is_ascii_literal_char(i), 0 <= k < i ensures ok_is_ascii_literal_char(k) decreases i { if k < i - 1 { at_is_ascii_literal_char(i - 1, k) } }
#fn is_ascii_literal_char
#requires c < 0x80
#ensures r == tlit(c)
#proof start
    proof { assert(all_is_ascii_literal_char(128)) by(compute); at_is_ascii_literal_char(128, c as int); }
#end
#raw
pub open spec fn ok_is_ascii_varchar_start(i: int) -> bool { ((CHARS_TABLE[i] & CHARS_TABLE_MASK_VARCHAR_START) != 0) == varstart(i as u8) }
pub open spec fn all_is_ascii_varchar_start(i: int) -> bool decreases i { if i <= 0 { true } else { ok_is_ascii_varchar_start(i - 1) && all_is_ascii_varchar_start(i - 1) } }
proof fn at_is_ascii_varchar_start(i: int, k: int) requires all_is_ascii_varchar_start(i), 0 <= k < i ensures ok_is_ascii_varchar_start(k) decreases i { if k < i - 1 { at_is_ascii_varchar_start(i - 1, k) } }
#fn is_ascii_varchar_start
#requires c < 0x80
#ensures r == varstart(c)
#proof start
    proof { assert(all_is_ascii_varchar_start(128)) by(compute); at_is_ascii_varchar_start(128, c as int); }
#end
#raw
pub open spec fn ok_is_ascii_varchar_continue(i: int) -> bool { ((CHARS_TABLE[i] & CHARS_TABLE_MASK_VARCHAR_CONTINUE) != 0) == varcont(i as u8) }
pub open spec fn all_is_ascii_varchar_continue(i: int) -> bool decreases i { if i <= 0 { true } else { ok_is_ascii_varchar_continue(i - 1) && all_is_ascii_varchar_continue(i - 1) } }
proof fn at_is_ascii_varchar_continue(i: int, k: int) requires all_is_ascii_varchar_continue(i), 0 <= k < i ensures ok_is_ascii_varchar_continue(k) decreases i { if k < i - 1 { at_is_ascii_varchar_continue(i - 1, k) } }
#fn is_ascii_varchar_continue
#requires c < 0x80
#ensures r == varcont(c)
#proof start
    proof { assert(all_is_ascii_varchar_continue(128)) by(compute); at_is_ascii_varchar_continue(128, c as int); }
#end


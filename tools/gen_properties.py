#!/usr/bin/env python3
"""Writes properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = [observe]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

add("C01", "Validation accepts exactly the RFC 3986 / RFC 3987 grammar",
 "For every string and for both the URI and the IRI flavour, constructing a typed string (reference, URI/IRI with scheme, absolute, relative, query, fragment) succeeds if and only if the text matches the corresponding production of RFC 3986 or RFC 3987, and each public syntax checker (scheme, authority, host, reg-name, userinfo, port, path, path segment, query, fragment and the whole-identifier checkers) agrees with its production. Validation never panics.",
 ["inputs"], "all Unicode strings of any length, both flavours, every string type and every public checker",
 "The tests list a few hundred accepted and rejected strings; the grammar is a language over all strings, and wrong acceptance of one unlisted form (an IPv6 shape, an empty fragment, a colon in a first segment) breaks the soundness of every later unsafe or unchecked step.",
 ["src/parser/validate.rs","src/parser/validate/authority.rs","src/parser/validate/path.rs","src/parser/char.rs","src/parser/str.rs","src/validate.rs","src/spec/internal.rs"],
 [("grammar validators","src/parser/validate.rs"),("host and IPv6 validators","src/parser/validate/authority.rs"),("path validators","src/parser/validate/path.rs"),("character class table","src/parser/char.rs")],
 observe="RiXxxStr::new / TryFrom / FromStr and iri_string::validate::*", hook=False)

add("C02", "Component getters return the unique RFC decomposition",
 "For every valid identifier string, the scheme, authority, path, query and fragment reported by the accessors and by the component-splitting helpers are exactly the substrings that the RFC grammar assigns to those components (absent and empty are distinguished), and re-joining them with their delimiters yields the original text. The same holds for the strings obtained by splitting off or dropping the fragment.",
 ["inputs"], "every valid reference, absolute, full and relative string of both flavours",
 "Tests check the getters on a fixed component table; the trusted parsers skip validation and rely on byte positions, so a wrong split on any untested delimiter combination stays invisible.",
 ["src/parser/trusted.rs","src/components.rs","src/types/generic/reference.rs","src/types/generic/normal.rs","src/types/generic/absolute.rs","src/types/generic/relative.rs","src/raw.rs"],
 [("trusted decomposition","src/parser/trusted.rs"),("component splitter","src/components.rs"),("fragment splitting","src/raw.rs")],
 observe="scheme_str, authority_str, path_str, query, fragment, to_absolute_and_fragment, without_fragment", hook=False)

add("C03", "Authority is split into userinfo, host and port as the grammar says",
 "For every valid string with an authority, the reported userinfo, host and port are exactly the substrings assigned by the RFC grammar (userinfo up to the at-sign, bracketed hosts kept whole, port only after the colon that follows the host; absent and empty distinguished), and joining them reproduces the authority. A string without an authority yields no authority components.",
 ["inputs"], "every valid authority, including IP literals, empty hosts, empty ports and non-ASCII hosts",
 "Tests use a table of authorities; colons and at-signs can appear in userinfo, IP literals and percent-encoded data in arbitrarily many combinations.",
 ["src/components/authority.rs","src/parser/trusted/authority.rs","src/parser/trusted.rs"],
 [("authority components","src/components/authority.rs"),("authority decomposition","src/parser/trusted/authority.rs")],
 observe="authority_components() and AuthorityComponents getters", hook=False)

add("C04", "Reference resolution computes the RFC 3986 section 5.2 target",
 "Resolving any valid reference against any valid base yields exactly the target of the RFC 3986 section 5.2.2 algorithm (strict transform, merge, dot-segment removal, recomposition; a segment spelled with %2E counts as the dot segment it decodes to), whatever the lengths and depths of the paths; the only documented deviation is that a result without authority whose path would start with two slashes is written with a leading /. segment. The result is itself a valid identifier, and the infallible, fallible and fixed-base entry points agree.",
 ["inputs"], "all pairs of valid base and reference, both flavours, paths of any number of segments",
 "The tests sample the RFC examples and a reference implementation on a fixed table; dot-segment removal across the base/reference boundary is a loop over unboundedly many segments with a fixed-size work queue, so deep paths are never reached.",
 ["src/resolve.rs","src/normalize.rs","src/normalize/path.rs","src/types/generic/reference.rs"],
 [("resolver","src/resolve.rs"),("component selection","src/normalize.rs"),("path merge and dot-segment removal","src/normalize/path.rs")],
 observe="resolve_against, FixedBaseResolver::resolve, ensure_rfc3986_normalizable, Display of the result", hook=False)

add("C05", "Normalization is sound, idempotent and agrees with the normalized test",
 "For every valid identifier, normalization yields a valid identifier equal to the one obtained by RFC 3986 section 6.2.2 syntax-based normalization (lowercase scheme and ASCII host, uppercase percent triplets, unreserved triplets decoded, empty port dropped, dot segments removed, with the documented handling of authority-less paths), and normalizing again changes nothing. The is-normalized tests answer true exactly when the corresponding normalization would return the input unchanged.",
 ["inputs"], "every valid string of both flavours and every normalization mode",
 "Tests check some dozens of inputs per mode; idempotence and agreement of two independently written algorithms (the normalizer and the tester) are claims about all strings.",
 ["src/normalize.rs","src/normalize/path.rs","src/normalize/pct_case.rs","src/parser/trusted.rs","src/parser/trusted/authority.rs"],
 [("normalization writer","src/normalize.rs"),("path normalization","src/normalize/path.rs"),("normalized-form test","src/parser/trusted.rs")],
 observe="normalize(), normalize_but_preserve_authorityless_relative_path(), is_normalized*()", hook=False)

add("C06", "Percent-triplet normalization decodes only unreserved characters",
 "For any text with well-formed percent triplets, percent/case normalization leaves every literal character untouched, uppercases the hex digits of triplets it keeps, and replaces exactly the triplet sequences that encode a character which is unreserved in the target flavour by that character; percent-decoding the result gives the same bytes as percent-decoding the input. For registered-name hosts that consist of ASCII only, letters are additionally lowercased.",
 ["inputs"], "all strings with well-formed triplets, including invalid, overlong, truncated and surrogate UTF-8 sequences encoded in triplets",
 "Tests cover a handful of sequences; the decoder is a byte-by-byte UTF-8 automaton over triplets whose corner cases (truncated sequences next to ASCII triplets) are combinatorial.",
 ["src/normalize/pct_case.rs","src/parser/trusted.rs"],
 [("triplet normalizer","src/normalize/pct_case.rs"),("trusted UTF-8 helpers","src/parser/trusted.rs")],
 observe="normalize() on paths, queries, fragments, userinfo and hosts", hook=False)

add("C07", "Percent-encoding output is valid in its context and loses nothing",
 "For every input string and every supported context (unreserved, user, password, reg-name, path segment, path, query, fragment) and flavour, percent-encoding emits only characters allowed in that context, copies exactly the characters the context allows and encodes every other one as uppercase triplets of its UTF-8 bytes. Consequently percent-decoding the output returns the input bytes.",
 ["inputs"], "all Unicode strings, every context, both flavours",
 "Tests encode a few strings per context; the claim is per character class over all of Unicode and over concatenations.",
 ["src/percent_encode.rs","src/parser/char.rs"],
 [("context encoder","src/percent_encode.rs"),("character class table","src/parser/char.rs")],
 observe="PercentEncoded Display", hook=False)

add("C08", "Percent-decoding follows the WHATWG byte rule",
 "For every byte string, percent-decoding replaces each percent sign followed by two hexadecimal digits by that byte, scanning left to right without re-scanning decoded output, and leaves every other byte (stray percent signs included) as it is. The borrowed, owned, string and fragment-iterator forms all agree, and the borrowing form succeeds exactly when there is nothing to decode.",
 ["inputs"], "all byte strings of any length",
 "Tests decode a few well-formed strings; the mixture of stray percent signs before and after decodable triplets is unbounded, and several independent implementations must agree.",
 ["src/percent_encode/decode.rs","src/parser/str.rs","src/parser/trusted.rs"],
 [("WHATWG decoder","src/percent_encode/decode.rs"),("hex pair parser","src/parser/str.rs")],
 observe="decode_whatwg_bytes and its to_bytes, into_bytes, into_string, bytes_fragments", hook=False)

add("C09", "IRI to URI conversion percent-encodes exactly the non-ASCII bytes",
 "For every valid IRI-flavoured string, encoding it to a URI yields the original text with each non-ASCII UTF-8 byte replaced by its uppercase percent triplet and nothing else changed; the result is valid for the URI flavour of the same type. The in-place, owned and display-based conversions agree, and conversion back to the URI type without encoding succeeds exactly for ASCII-only strings.",
 ["inputs"], "all valid IRI strings of every type, including long runs of non-ASCII characters",
 "Tests convert a handful of IRIs; chunk boundaries of the fixed-size scratch buffer and the backwards in-place expansion are only reached by long inputs.",
 ["src/convert.rs","src/types/iri.rs"],
 [("display conversion","src/convert.rs"),("in-place conversion","src/convert.rs"),("type conversions","src/types/iri.rs")],
 observe="encode_to_uri, encode_to_uri_inline, encode_into_uri, try_into_uri, as_uri", hook=False)

add("C10", "Password masking and removal hide the password and nothing else",
 "For every valid string, the masked and password-removed forms contain everything outside the password (the userinfo text after its first colon) unchanged and nothing of the password itself; removing also drops the separating colon where documented, and strings without a password come out unchanged. The forms that do not replace the password by arbitrary text remain valid identifiers, and the debug output of such forms does not leak it.",
 ["inputs"], "all valid strings with and without authority, userinfo and password",
 "Tests mask a few URLs; colons in ports, IP literals, paths and queries make the password range a grammar question over all strings.",
 ["src/mask_password.rs","src/types/generic/macros.rs"],
 [("password range and masking","src/mask_password.rs"),("in-place removal","src/mask_password.rs")],
 observe="mask_password, replace_password, remove_password_inline, remove_nonempty_password_inline", hook=False)

add("C11", "The builder emits only valid identifiers made of the given components",
 "Whenever building succeeds, the displayed and allocated result is valid for the requested type, and decomposing it returns exactly the components that were set (or their normalized form when normalization was requested). Building fails, without panicking, for every component combination that has no valid representation.",
 ["inputs","programs"], "all combinations of scheme, userinfo (with or without password), host, port, path, query and fragment strings, set in any order, for every target type and flavour",
 "Tests build a table of component tuples; the builder promises validity of an unchecked string for arbitrary user-supplied component text.",
 ["src/build.rs","src/parser/validate.rs"],
 [("builder validation","src/build.rs"),("builder writer","src/build.rs")],
 observe="Builder::build, Built Display, ToDedicatedString", hook=False)

add("C12", "In-place edits keep validity and touch only the edited component",
 "For every valid owned string, setting, removing or taking the fragment, and replacing the host, leave the string valid for its type, change exactly that component and keep all others byte for byte. An edit that cannot apply (no authority, invalid new host, host that is not a registered name when only that is allowed) leaves the string unchanged and reports it.",
 ["inputs","histories"], "all valid strings, all arguments, and all sequences of such edits",
 "Tests apply single edits to a few strings; validity must be preserved by every operation on every value for the unchecked internal representation to stay sound.",
 ["src/raw.rs","src/types/generic.rs","src/types/generic/reference.rs","src/types/generic/normal.rs","src/types/generic/absolute.rs","src/types/generic/relative.rs"],
 [("fragment edits","src/raw.rs"),("host replacement","src/types/generic.rs")],
 observe="set_fragment, replace_host, try_replace_host, replace_host_reg_name, into_absolute_and_fragment", hook=False)

add("C13", "Conversions between string types preserve text and check the target",
 "Converting any typed string to another type (borrowed or owned, URI or IRI flavour, reference to full, full to absolute, reference to relative and the reverse) never changes the text, succeeds exactly when the text is valid for the target type, and on failure of an owned conversion hands the original back. Equality, ordering and hashing of typed strings coincide with those of their text, and deserialization accepts exactly the valid texts.",
 ["inputs"], "all valid strings and all pairs of types",
 "Tests convert sample strings; several conversions skip validation on the argument that one type is a subset of another, which must hold for all strings.",
 ["src/types/generic/macros.rs","src/types/generic/reference.rs","src/types/generic/normal.rs","src/types/generic/absolute.rs","src/types/generic/relative.rs","src/types/iri.rs","src/types/uri.rs"],
 [("conversion macros","src/types/generic/macros.rs"),("reference to IRI and relative","src/types/generic/reference.rs")],
 observe="TryFrom, From, AsRef, to_iri, to_relative_iri, to_absolute, as_uri, PartialEq, PartialOrd, Hash, serde", hook=False)

add("C14", "URI template syntax accepts exactly the RFC 6570 grammar",
 "An ASCII string is accepted as a URI template (and a name as a template variable name) if and only if it matches the RFC 6570 grammar with the reserved-for-future operators rejected (an apostrophe is a literal, as in the grammar's erratum 6937), and validation never panics. The variables reported for an accepted template are exactly its variable names in order of appearance.",
 ["inputs"], "all ASCII strings of any length",
 "Tests parse example templates; acceptance is a claim about a language over all strings, and an over-long prefix length accepted here makes expansion panic later.",
 ["src/template/parser/validate.rs","src/template/parser/char.rs","src/template/components.rs","src/template/string.rs"],
 [("template validator","src/template/parser/validate.rs"),("template character table","src/template/parser/char.rs"),("operator and modifier parsing","src/template/components.rs")],
 observe="UriTemplateStr::new, VarName::new, variables()", hook=False)

add("C15", "URI template expansion produces the RFC 6570 result",
 "For every accepted template and every assignment of undefined, string, list and associative-array values, expansion yields exactly the RFC 6570 expansion (operator prefixes and separators, named parameters, explode, prefix lengths counted in characters, reserved expansion keeping well-formed triplets; a named, unexploded list whose only member is the empty string is a non-empty value and gives name=), with characters outside the allowed set percent-encoded and never a panic. The result does not depend on how the value provider chunks its writes.",
 ["inputs","histories"], "all templates, all contexts, all value texts including non-ASCII and malformed percent signs, all chunkings of displayed values",
 "Tests run the published example suite, almost all ASCII and single-chunk; prefix truncation and pass-through of triplets are stateful scanners over arbitrary chunked text.",
 ["src/template/expand.rs","src/template/components.rs","src/template/value.rs","src/parser/str/maybe_pct_encoded.rs"],
 [("expander","src/template/expand.rs"),("best-effort triplet scanner","src/parser/str/maybe_pct_encoded.rs"),("operator table","src/template/components.rs")],
 observe="UriTemplateStr::expand, expand_dynamic, Expanded Display", hook=False)

add("C16", "Formatting into bounded buffers is all-or-error and exact",
 "Writing any displayable value into a caller-provided byte buffer returns exactly the displayed text when it fits and an error when it does not, never a truncated text and never a write past the text's end; the string-appending and text-comparison helpers append, respectively accept, exactly the displayed text however the value chunks its writes, given that the value itself reports the write errors it meets.",
 ["inputs","histories"], "all buffer sizes, all values, all sequences of writes performed by the value",
 "Tests try a few buffer sizes; exactness is a claim over all write sequences and sizes, and the comparison helper decides normalized-equality results.",
 ["src/format.rs"],
 [("slice writer","src/format.rs"),("string writer","src/format.rs"),("comparison writer","src/format.rs")],
 observe="format::write_to_slice, try_append_to_string, ToStringFallible", hook=False)

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")

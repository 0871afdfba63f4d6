#module template::error
#file template/error.rs
#raw
use crate::vx::*;
#item enum ErrorKind
#item struct Error
#fn Error::new
#ensures r.kind == kind, r.location == location

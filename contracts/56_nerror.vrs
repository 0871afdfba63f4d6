#module normalize::error
#file normalize/error.rs
#item struct Error
//no derive
#fn Error::new

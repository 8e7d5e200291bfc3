/// `harnesses! { name { body } ... }`: entry points named `name`.
macro_rules! harnesses {
  ($( $(#[$m:meta])* $name:ident $body:block )*) => {
    $(
      $(#[$m])*
      #[no_mangle]
      pub extern "C" fn $name() $body
    )*
    pub fn register(v: &mut Vec<crate::Entry>) {
      $( v.push((stringify!($name), $name as extern "C" fn())); )*
    }
  };
}

/// the same, for a second group in one module
macro_rules! harnesses2 {
  ($( $(#[$m:meta])* $name:ident $body:block )*) => {
    $(
      $(#[$m])*
      #[no_mangle]
      pub extern "C" fn $name() $body
    )*
    pub fn register2(v: &mut Vec<crate::Entry>) {
      $( v.push((stringify!($name), $name as extern "C" fn())); )*
    }
  };
}

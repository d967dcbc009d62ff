pub mod field {
    pub use symfe::Fe as AnyFe;
    pub trait BaseField {}
    pub mod field_secp {
        pub use symfe::Fe as FieldElement;
    }
    pub mod field_secq {
        pub use symfe::Fe as FieldElement;
    }
}

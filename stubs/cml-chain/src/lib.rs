//! Stand-in for the part of cardano-multiplatform-lib's chain crate that blockchain-source names.
pub mod genesis {
    pub mod network_info {
        use cml_core::network::ProtocolMagic;
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct NetworkInfo { network_id: u8, magic: ProtocolMagic }
        impl NetworkInfo {
            pub fn new(network_id: u8, magic: ProtocolMagic) -> Self { Self { network_id, magic } }
            pub fn network_id(&self) -> u8 { self.network_id }
            pub fn protocol_magic(&self) -> ProtocolMagic { self.magic }
            pub fn mainnet() -> Self { Self::new(1, 764824073.into()) }
            pub fn testnet() -> Self { Self::new(0, 1097911063.into()) }
            pub fn preprod() -> Self { Self::new(0, 1.into()) }
            pub fn preview() -> Self { Self::new(0, 2.into()) }
        }
    }
}

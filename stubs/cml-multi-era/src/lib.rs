//! Stand-in for the part of cardano-multiplatform-lib's multi-era crate that blockchain-source names.
//! Its blocks are 66 bytes and more: kind, epoch, slot, number, hash, parent (no parent: zeros).
#[derive(Debug)]
pub struct Error;
fn n(b: &[u8], i: usize) -> u64 { u64::from_be_bytes(b[i..i + 8].try_into().unwrap()) }

pub mod utils {
    #[derive(Clone)]
    pub struct MultiEraBlockHeader { pub(crate) slot: u64, pub(crate) number: u64, pub(crate) prev: Option<Hash> }
    #[derive(Clone)]
    pub struct Hash(pub [u8; 32]);
    impl std::fmt::Display for Hash {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.iter().try_for_each(|x| write!(f, "{x:02x}")) }
    }
    impl MultiEraBlockHeader {
        pub fn prev_hash(&self) -> Option<Hash> { self.prev.clone() }
        pub fn block_number(&self) -> u64 { self.number }
        pub fn slot(&self) -> u64 { self.slot }
    }
}
pub mod byron {
    pub mod block {
        pub struct SlotId { pub epoch: u64, pub slot: u64 }
        pub struct MainConsensus { pub byron_slot_id: SlotId }
        pub struct BoundaryConsensus { pub epoch_id: u64 }
        pub struct MainHeader { pub consensus_data: MainConsensus }
        pub struct BoundaryHeader { pub consensus_data: BoundaryConsensus }
        pub struct ByronMainBlock { pub header: MainHeader, pub raw: super::super::Raw }
        pub struct EpochBoundaryBlock { pub header: BoundaryHeader, pub raw: super::super::Raw }
        pub enum ByronBlock { EpochBoundary(EpochBoundaryBlock), Main(ByronMainBlock) }
    }
}
#[derive(Clone)]
pub struct Raw { header: utils::MultiEraBlockHeader, hash: [u8; 32] }
pub enum MultiEraBlock { Byron(byron::block::ByronBlock), Shelley(Raw) }
impl MultiEraBlock {
    pub fn from_explicit_network_cbor_bytes(b: &[u8]) -> Result<Self, Error> {
        use byron::block::*;
        if b.len() < 89 { return Err(Error) }
        let prev: [u8; 32] = b[57..89].try_into().unwrap();
        let raw = Raw {
            header: utils::MultiEraBlockHeader { slot: n(b, 9), number: n(b, 17), prev: if prev == [0; 32] { None } else { Some(utils::Hash(prev)) } },
            hash: b[25..57].try_into().unwrap(),
        };
        Ok(match b[0] {
            0 => Self::Byron(ByronBlock::EpochBoundary(EpochBoundaryBlock { header: BoundaryHeader { consensus_data: BoundaryConsensus { epoch_id: n(b, 1) } }, raw })),
            1 => Self::Byron(ByronBlock::Main(ByronMainBlock { header: MainHeader { consensus_data: MainConsensus { byron_slot_id: SlotId { epoch: n(b, 1), slot: 0 } } }, raw })),
            _ => Self::Shelley(raw),
        })
    }
    fn raw(&self) -> &Raw {
        match self {
            Self::Byron(byron::block::ByronBlock::EpochBoundary(x)) => &x.raw,
            Self::Byron(byron::block::ByronBlock::Main(x)) => &x.raw,
            Self::Shelley(x) => x,
        }
    }
    pub fn header(&self) -> utils::MultiEraBlockHeader { self.raw().header.clone() }
    pub fn hash(&self) -> [u8; 32] { self.raw().hash }
}

//! Mainnet activation points of the forks trin asks about (EIP-3675, Shapella and Dencun schedules).
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum EthereumHardfork {
    Paris,
    Shanghai,
    Cancun,
    Prague,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ForkCondition {
    Block(u64),
    Timestamp(u64),
    Never,
}
impl ForkCondition {
    pub fn active_at_block(&self, n: u64) -> bool {
        matches!(self, ForkCondition::Block(b) if n >= *b)
    }
    pub fn active_at_timestamp(&self, t: u64) -> bool {
        matches!(self, ForkCondition::Timestamp(x) if t >= *x)
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct EthereumChainHardforks {
    sepolia: bool,
}
impl EthereumChainHardforks {
    pub fn mainnet() -> Self {
        Self { sepolia: false }
    }
    pub fn sepolia() -> Self {
        Self { sepolia: true }
    }
}
pub trait EthereumHardforks {
    fn ethereum_fork_activation(&self, fork: EthereumHardfork) -> ForkCondition;
    fn is_paris_active_at_block(&self, n: u64) -> bool {
        self.ethereum_fork_activation(EthereumHardfork::Paris).active_at_block(n)
    }
    fn is_shanghai_active_at_timestamp(&self, t: u64) -> bool {
        self.ethereum_fork_activation(EthereumHardfork::Shanghai).active_at_timestamp(t)
    }
    fn is_cancun_active_at_timestamp(&self, t: u64) -> bool {
        self.ethereum_fork_activation(EthereumHardfork::Cancun).active_at_timestamp(t)
    }
    fn is_prague_active_at_timestamp(&self, t: u64) -> bool {
        self.ethereum_fork_activation(EthereumHardfork::Prague).active_at_timestamp(t)
    }
}
impl EthereumHardforks for EthereumChainHardforks {
    fn ethereum_fork_activation(&self, fork: EthereumHardfork) -> ForkCondition {
        use EthereumHardfork::*;
        match (self.sepolia, fork) {
            (false, Paris) => ForkCondition::Block(15_537_394),
            (false, Shanghai) => ForkCondition::Timestamp(1_681_338_455),
            (false, Cancun) => ForkCondition::Timestamp(1_710_338_135),
            (false, Prague) => ForkCondition::Timestamp(1_746_612_311),
            (true, Paris) => ForkCondition::Block(1_450_409),
            (true, Shanghai) => ForkCondition::Timestamp(1_677_557_088),
            (true, Cancun) => ForkCondition::Timestamp(1_706_655_072),
            (true, Prague) => ForkCondition::Timestamp(1_741_159_776),
        }
    }
}

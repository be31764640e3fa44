pub mod engine;
pub mod generate;
pub mod model;
pub mod props;
pub mod src;
pub mod synth;
pub mod world;
pub mod xml;

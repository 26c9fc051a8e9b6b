//! Independent MQTT 5.0 reference (written from the OASIS specification, shares no code with
//! the repository), random packet generator, topic matcher, PRNG and report writer.
pub mod gen;
pub mod matcher;
pub mod mutate;
pub mod report;
pub mod rng;
pub mod wire;

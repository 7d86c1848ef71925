[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[[bin]]
name = "demo"
path = "main.rs"

[dependencies]
openraft = { path = "/repo/openraft", features = ["serde", "type-alias"] }
tokio = { version = "1.22", features = ["full"] }
futures = "0.3"
serde = { version = "1", features = ["derive"] }
serde_json = "1"

[profile.dev]
debug = 0
incremental = false

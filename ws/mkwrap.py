"""Writes the wrapper manifests in wrap/ (committed; rerun only when the list changes)."""
import os
W = os.path.dirname(os.path.abspath(__file__)) + '/wrap/'
S = lambda n, **k: '{ path = "../../shims/%s"%s }' % (n, ''.join(', %s = %s' % (a.replace('_','-'), b) for a, b in k.items()))
R = lambda n, f=None: '{ path = "../%s"%s }' % (n, ', features = %s' % f if f else '')
def w(name, dirn, deps, feats='', build=None, dev='', macro=False):
    d = W + dirn
    os.makedirs(d, exist_ok=True)
    deps = '\n'.join('%s = %s' % (k, v if v[0] in '{"' else '"%s"' % v) for k, v in deps.items())
    txt = f'''[package]
name = "{name}"
version = "0.0.0"
edition = "2024"
{'build = "build.rs"' if build else ''}
[lib]
path = "/repo/{dirn}/src/lib.rs"
doctest = false
{'proc-macro = true' if macro else ''}
[features]
{feats}
[dependencies]
{deps}
{dev}'''
    open(d + '/Cargo.toml', 'w').write(txt)
    if build:
        open(d + '/build.rs', 'w').write(build)
SERDE = '{ version = "1", features = ["derive"] }'
w('partial_struct', 'partial_struct', {'quote': '0.6.11', 'syn': '0.15.26'}, macro=True, dev='''[dev-dependencies]
serde = { version = "1", features = ["derive"] }
syn = { version = "0.15.26", features = ["extra-traits"] }
''')
w('witnet_protected', 'protected', {'memzero': '0.1.0', 'serde': '{ version = "1", features = ["derive"], optional = true }'}, 'with-serde = ["serde"]')
w('witnet_futures_utils', 'futures_utils', {'futures': '0.3'})
w('witnet_reputation', 'reputation', {'anyhow': '1', 'thiserror': '2', 'serde': '{ version = "1", features = ["derive"], optional = true }'})
w('witnet_crypto', 'crypto', {'aes': '0.7.5', 'bech32': '0.7.2', 'block-modes': '0.8.1', 'byteorder': '1.3.4', 'digest': '0.8.1', 'hex': '0.4.1', 'hmac': '0.7.1', 'memzero': '0.1.0', 'rand': '0.7.3', 'ring': '0.16.11', 'secp256k1': '{ version = "0.28.1", features = ["global-context", "recovery"] }', 'serde': '{ version = "1", features = ["derive"], optional = true }', 'sha2': '0.8.1', 'tiny-bip39': '{ version = "2.0.0", default-features = false }', 'thiserror': '2', 'witnet_protected': R('protected')}, 'with-serde = ["serde", "secp256k1/serde"]')
w('witnet_storage', 'storage', {'anyhow': '1', 'thiserror': '2', 'rocksdb': '{ path = "../../shims/rocksdb", optional = true }'}, 'rocksdb-backend = ["rocksdb"]')
w('witnet_util', 'util', {'chrono': '{ path = "../../shims/chrono", package = "chrono-sim" }', 'humantime': '2', 'lazy_static': '1', 'log': '0.4', 'ntp': S('ntp'), 'serde': SERDE})
w('witnet_data_structures', 'data_structures', {
 'anyhow': '1', 'bech32': S('bech32'), 'bincode': '1.3.3',
 'bls-signatures-rs': '{ package = "witnet-bls-signatures", path = "../../shims/bls" }',
 'byteorder': '1', 'cbor-codec': S('cbor-codec'), 'ethereum-types': S('ethereum-types'), 'futures': '0.3', 'hex': '0.4', 'itertools': '0.13', 'lazy_static': '1', 'log': '0.4', 'num_enum': S('num_enum'), 'num-traits': '0.2', 'ordered-float': '4.6', 'partial_struct': R('partial_struct'), 'protobuf': S('protobuf', features='["with-serde"]'), 'protobuf-convert': S('protobuf-convert'), 'rand': '0.8', 'rand_distr': S('rand_distr'), 'serde': SERDE, 'serde_cbor': S('serde_cbor'), 'serde_json': '1', 'strum': S('strum'), 'strum_macros': S('strum_macros'), 'thiserror': '2', 'vrf': S('vrf'), 'witnet_crypto': R('crypto'), 'witnet_reputation': R('reputation', '["serde"]'), 'witnet_protected': R('protected', '["serde"]'), 'witnet_storage': R('storage'), 'witnet_util': R('util')},
 'rocksdb-backend = ["witnet_storage/rocksdb-backend"]\nwith-serde = ["rocksdb-backend"]',
 build='''fn main() {
    println!("cargo:rerun-if-changed=/repo/schemas/witnet/witnet.proto");
    exonum_build::protobuf_generate("/repo/schemas/witnet", ["/repo/schemas/witnet"], "witnet_proto_mod.rs");
}
''', dev='''[build-dependencies]
exonum-build = { path = "../../shims/exonum-build" }
''')
w('witnet_config', 'config', {'directories-next': S('directories-next'), 'log': '0.4', 'partial_struct': R('partial_struct'), 'serde': SERDE, 'toml': '0.9', 'thiserror': '2', 'witnet_crypto': R('crypto', '["with-serde"]'), 'witnet_data_structures': R('data_structures'), 'witnet_protected': R('protected')})
w('witnet_rad', 'rad', {'anyhow': '1', 'base64': '0.22.1', 'bs58': S('bs58'), 'cbor-codec': S('cbor-codec'), 'futures': '0.3', 'hex': '0.4', 'if_rust_version': S('if_rust_version'), 'jsonpath': S('jsonpath'), 'http': '1', 'log': '0.4', 'minidom': S('minidom'), 'num_enum': S('num_enum'), 'ordered-float': '4.6', 'rand': '0.7.3', 'regex': '1', 'reqwest': S('reqwest'), 'serde': SERDE, 'serde_cbor': S('serde_cbor'), 'serde_json': '1', 'slicestring': S('slicestring'), 'thiserror': '2', 'tokio': '{ version = "1", features = ["io-util", "net", "time", "sync", "rt", "macros"] }', 'url': '2', 'witnet_config': R('config'), 'witnet_crypto': R('crypto'), 'witnet_data_structures': R('data_structures'), 'witnet_net': '{ path = "../../shims/net-lite" }', 'witnet_util': R('util')}, 'rocksdb-backend = ["witnet_data_structures/rocksdb-backend"]')
w('witnet_validations', 'validations', {'anyhow': '1', 'itertools': '0.13', 'log': '0.4', 'serde': SERDE, 'thiserror': '2', 'url': '2', 'witnet_config': R('config'), 'witnet_crypto': R('crypto'), 'witnet_data_structures': R('data_structures'), 'witnet_rad': R('rad'), 'num-traits': '0.2'}, dev='[dev-dependencies]\napprox = { path = "../../shims/approx" }\nhex = "0.4"\nwitnet_protected = { path = "../protected" }\n')
w('witnet_p2p', 'p2p', {'anyhow': '1', 'log': '0.4', 'rand': '0.7.3', 'serde': SERDE, 'thiserror': '2', 'witnet_config': R('config'), 'witnet_crypto': R('crypto'), 'witnet_util': R('util')})

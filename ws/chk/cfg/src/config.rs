//! C48: settings.
use mc::{Ch, Run, ensure, explore, guard, same};
use std::collections::BTreeMap;
use witnet_config::config::{Config, PartialConfig};
use witnet_config::loaders::toml as loader;
use witnet_data_structures::chain::Environment;

/// Each setting: its section, its name in the file, what to write, its field, and what it is then.
type Setting = (&'static str, &'static str, &'static str, &'static str, &'static str);
const SETTINGS: &[Setting] = &[
    ("connections", "server_addr", "'1.2.3.4:5'", "connections.server_addr", "1.2.3.4:5"),
    ("connections", "server_addr", "'[::1]:6'", "connections.server_addr", "[::1]:6"),
    ("connections", "public_addr", "'9.8.7.6:1'", "connections.public_addr.Some", "9.8.7.6:1"),
    ("connections", "inbound_limit", "7", "connections.inbound_limit", "7"),
    ("connections", "inbound_limit", "0", "connections.inbound_limit", "0"),
    ("connections", "outbound_limit", "65535", "connections.outbound_limit", "65535"),
    ("connections", "known_peers", "['1.1.1.1:1', '2.2.2.2:2', '1.1.1.1:1']", "connections.known_peers", "1.1.1.1:1|2.2.2.2:2"),
    ("connections", "bootstrap_peers_period_seconds", "11", "connections.bootstrap_peers_period", "11s"),
    ("connections", "storage_peers_period_seconds", "12", "connections.storage_peers_period", "12s"),
    ("connections", "discovery_peers_period_seconds", "13", "connections.discovery_peers_period", "13s"),
    ("connections", "check_melted_peers_period_seconds", "14", "connections.check_melted_peers_period", "14s"),
    ("connections", "feeler_peers_period_seconds", "16", "connections.feeler_peers_period", "16s"),
    ("connections", "handshake_timeout_seconds", "17", "connections.handshake_timeout", "17s"),
    ("connections", "handshake_timeout_seconds", "0", "connections.handshake_timeout", "0ns"),
    ("connections", "handshake_max_ts_diff", "0", "connections.handshake_max_ts_diff", "0"),
    ("connections", "blocks_timeout", "18", "connections.blocks_timeout", "18"),
    ("connections", "consensus_c", "61", "connections.consensus_c", "61"),
    ("connections", "bucketing_update_period", "19", "connections.bucketing_update_period", "19"),
    ("connections", "bucketing_ice_period_seconds", "20", "connections.bucketing_ice_period", "20s"),
    ("connections", "reject_sybil_inbounds", "!", "connections.reject_sybil_inbounds", "!"),
    ("connections", "reject_sybil_inbounds_range_limit", "21", "connections.reject_sybil_inbounds_range_limit", "21"),
    ("connections", "requested_blocks_batch_limit", "22", "connections.requested_blocks_batch_limit", "22"),
    ("storage", "backend", "'hashmap'", "storage.backend", "HashMap"),
    ("storage", "db_path", "'/x/y'", "storage.db_path", "\"/x/y\""),
    ("storage", "master_key_import_path", "'/m'", "storage.master_key_import_path.Some", "\"/m\""),
    ("storage", "utxos_in_memory", "!", "storage.utxos_in_memory", "!"),
    ("storage", "rad_hashes_index", "!", "storage.rad_hashes_index", "!"),
    ("storage", "max_open_files", "23", "storage.max_open_files", "23"),
    ("consensus_constants", "checkpoint_zero_timestamp", "-24", "consensus_constants.checkpoint_zero_timestamp", "-24"),
    ("consensus_constants", "checkpoints_period", "25", "consensus_constants.checkpoints_period", "25"),
    ("consensus_constants", "bootstrap_hash", "'0101010101010101010101010101010101010101010101010101010101010101'", "consensus_constants.bootstrap_hash", "0101010101010101010101010101010101010101010101010101010101010101"),
    ("consensus_constants", "genesis_hash", "'0202020202020202020202020202020202020202020202020202020202020202'", "consensus_constants.genesis_hash", "0202020202020202020202020202020202020202020202020202020202020202"),
    ("consensus_constants", "max_vt_weight", "26", "consensus_constants.max_vt_weight", "26"),
    ("consensus_constants", "max_dr_weight", "27", "consensus_constants.max_dr_weight", "27"),
    ("consensus_constants", "activity_period", "28", "consensus_constants.activity_period", "28"),
    ("consensus_constants", "reputation_expire_alpha_diff", "29", "consensus_constants.reputation_expire_alpha_diff", "29"),
    ("consensus_constants", "reputation_issuance", "31", "consensus_constants.reputation_issuance", "31"),
    ("consensus_constants", "reputation_issuance_stop", "32", "consensus_constants.reputation_issuance_stop", "32"),
    ("consensus_constants", "reputation_penalization_factor", "0.25", "consensus_constants.reputation_penalization_factor", "0.25"),
    ("consensus_constants", "mining_backup_factor", "33", "consensus_constants.mining_backup_factor", "33"),
    ("consensus_constants", "mining_replication_factor", "34", "consensus_constants.mining_replication_factor", "34"),
    ("consensus_constants", "collateral_minimum", "35", "consensus_constants.collateral_minimum", "35"),
    ("consensus_constants", "collateral_age", "36", "consensus_constants.collateral_age", "36"),
    ("consensus_constants", "superblock_period", "37", "consensus_constants.superblock_period", "37"),
    ("consensus_constants", "extra_rounds", "38", "consensus_constants.extra_rounds", "38"),
    ("consensus_constants", "minimum_difficulty", "39", "consensus_constants.minimum_difficulty", "39"),
    ("consensus_constants", "epochs_with_minimum_difficulty", "40", "consensus_constants.epochs_with_minimum_difficulty", "40"),
    ("consensus_constants", "bootstrapping_committee", "['a', 'b']", "consensus_constants.bootstrapping_committee", "\"a\"|\"b\""),
    ("consensus_constants", "superblock_signing_committee_size", "41", "consensus_constants.superblock_signing_committee_size", "41"),
    ("consensus_constants", "superblock_committee_decreasing_period", "42", "consensus_constants.superblock_committee_decreasing_period", "42"),
    ("consensus_constants", "superblock_committee_decreasing_step", "43", "consensus_constants.superblock_committee_decreasing_step", "43"),
    ("consensus_constants", "initial_block_reward", "44", "consensus_constants.initial_block_reward", "44"),
    ("consensus_constants", "halving_period", "46", "consensus_constants.halving_period", "46"),
    ("jsonrpc", "enabled", "!", "jsonrpc.enabled", "!"),
    ("jsonrpc", "enable_sensitive_methods", "!", "jsonrpc.enable_sensitive_methods", "!"),
    ("jsonrpc", "http_address", "'1.1.1.1:1'", "jsonrpc.http_address.Some", "1.1.1.1:1"),
    ("jsonrpc", "tcp_address", "'1.1.1.1:2'", "jsonrpc.tcp_address.Some", "1.1.1.1:2"),
    ("jsonrpc", "server_address", "'1.1.1.1:3'", "jsonrpc.tcp_address.Some", "1.1.1.1:3"),
    ("jsonrpc", "ws_address", "'1.1.1.1:4'", "jsonrpc.ws_address.Some", "1.1.1.1:4"),
    ("mining", "enabled", "!", "mining.enabled", "!"),
    ("mining", "data_request_max_retrievals_per_epoch", "47", "mining.data_request_max_retrievals_per_epoch", "47"),
    ("mining", "data_request_timeout_milliseconds", "1500", "mining.data_request_timeout", "1.5s"),
    ("mining", "data_request_timeout_milliseconds", "0", "mining.data_request_timeout", "0ns"),
    ("mining", "genesis_path", "'g'", "mining.genesis_path", "\"g\""),
    ("mining", "mint_external_percentage", "48", "mining.mint_external_percentage", "48"),
    ("mining", "mint_external_address", "'w'", "mining.mint_external_address.Some", "\"w\""),
    ("mining", "transactions_pool_total_weight_limit", "49", "mining.transactions_pool_total_weight_limit", "49"),
    ("mining", "minimum_vtt_fee_nanowits", "52", "mining.minimum_vtt_fee", "52"),
    ("wallet", "testnet", "!", "wallet.testnet", "!"),
    ("wallet", "server_addr", "'1.1.1.1:7'", "wallet.server_addr", "1.1.1.1:7"),
    ("wallet", "node_url", "'one'", "wallet.node_url", "\"one\""),
    ("wallet", "node_url", "['one', 'two']", "wallet.node_url", "\"one\"|\"two\""),
    ("wallet", "node_sync_batch_size", "53", "wallet.node_sync_batch_size", "53"),
    ("wallet", "concurrency", "54", "wallet.concurrency.Some", "54"),
    ("wallet", "db_path", "'/w'", "wallet.db_path", "\"/w\""),
    ("wallet", "db_file_name", "'f'", "wallet.db_file_name", "\"f\""),
    ("wallet", "db_encrypt_hash_iterations", "55", "wallet.db_encrypt_hash_iterations", "55"),
    ("wallet", "db_encrypt_iv_length", "56", "wallet.db_encrypt_iv_length", "56"),
    ("wallet", "db_encrypt_salt_length", "57", "wallet.db_encrypt_salt_length", "57"),
    ("wallet", "id_hash_iterations", "58", "wallet.id_hash_iterations", "58"),
    ("wallet", "session_expires_in", "59", "wallet.session_expires_in", "59"),
    ("wallet", "requests_timeout", "62", "wallet.requests_timeout", "62"),
    ("wallet", "sync_address_batch_length", "63", "wallet.sync_address_batch_length", "63"),
    ("wallet", "use_unconfirmed_utxos", "!", "wallet.use_unconfirmed_utxos", "!"),
    ("wallet", "pending_transactions_timeout_seconds", "64", "wallet.pending_transactions_timeout_seconds", "64"),
    ("wallet", "master_key_salt", "[1, 2, 3]", "wallet.master_key_salt", "1|2|3"),
    ("wallet", "seed_password", "'s'", "", ""),
    ("rocksdb", "increase_parallelism", "65", "rocksdb.increase_parallelism.Some", "65"),
    ("rocksdb", "create_if_missing", "!", "rocksdb.create_if_missing", "!"),
    ("rocksdb", "compaction_readahead_size", "66", "rocksdb.compaction_readahead_size", "66"),
    ("rocksdb", "use_fsync", "!", "rocksdb.use_fsync", "!"),
    ("rocksdb", "enable_statistics", "!", "rocksdb.enable_statistics", "!"),
    ("log", "level", "'off'", "log.level", "Off"),
    ("log", "level", "'none'", "log.level", "Off"),
    ("log", "level", "'error'", "log.level", "Error"),
    ("log", "level", "'warn'", "log.level", "Warn"),
    ("log", "level", "'info'", "log.level", "Info"),
    ("log", "level", "'debug'", "log.level", "Debug"),
    ("log", "level", "'trace'", "log.level", "Trace"),
    ("log", "sentry_telemetry", "!", "log.sentry_telemetry", "!"),
    ("ntp", "update_period_seconds", "67", "ntp.update_period", "67s"),
    ("ntp", "servers", "['a:1']", "ntp.servers", "\"a:1\""),
    ("ntp", "servers", "[]", "ntp.servers", "[]"),
    ("ntp", "enabled", "!", "ntp.enabled", "!"),
    ("mempool", "tx_pending_timeout", "68", "mempool.tx_pending_timeout", "68"),
    ("mempool", "max_reinserted_transactions", "69", "mempool.max_reinserted_transactions", "69"),
    ("tapi", "oppose_wip0028", "!", "tapi.oppose_wip0028", "!"),
    ("witnessing", "allow_unproxied", "!", "witnessing.allow_unproxied", "!"),
    ("witnessing", "paranoid_percentage", "71", "witnessing.paranoid_percentage", "71"),
    ("witnessing", "proxies", "['p', 'q', 'p']", "witnessing.proxies", "\"p\"|\"q\"|\"p\""),
    ("protocol", "v1_7", "[70, 71]", "protocol.v1_7.Some", "70|71"),
    ("protocol", "v1_8", "[72, 73]", "protocol.v1_8.Some", "72|73"),
    ("protocol", "v2_0", "[74, 75]", "protocol.v2_0.Some", "74|75"),
];

const ENVS: [(&str, Environment); 3] = [("mainnet", Environment::Mainnet), ("testnet", Environment::Testnet), ("development", Environment::Development)];

/// The fields of something, from how it is printed for debugging.
fn flat(text: &str) -> BTreeMap<String, String> {
    let mut out: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut path: Vec<(String, bool)> = vec![];
    for line in text.lines() {
        let line = line.trim();
        let name = |p: &[(String, bool)]| p.iter().map(|(s, _)| s.as_str()).filter(|s| !s.is_empty()).collect::<Vec<_>>().join(".");
        if line.ends_with('{') || line.ends_with('(') || line.ends_with('[') {
            let head = line[..line.len() - 1].trim();
            let (field, kind) = match head.strip_suffix(':') {
                Some(f) => (f, ""),
                None => head.split_once(": ").unwrap_or(("", head)),
            };
            let step = match (field, kind) {
                (f, "Some") => format!("{f}.Some"),
                (f, _) => f.to_string(),
            };
            path.push((step, false));
            continue;
        }
        if line.starts_with(['}', ')', ']']) {
            path.pop();
            continue;
        }
        let line = line.trim_end_matches(',');
        match line.split_once(": ") {
            Some((f, v)) if f.chars().all(|c| c.is_alphanumeric() || c == '_') => {
                let mut n = name(&path);
                if !n.is_empty() {
                    n.push('.');
                }
                out.entry(n + f).or_default().push(v.to_string());
            }
            _ => out.entry(name(&path)).or_default().push(line.to_string()),
        }
    }
    out.into_iter()
        .map(|(k, mut v)| {
            if k.contains("known_peers") {
                v.sort();
            }
            (k, v.join("|"))
        })
        .collect()
}

fn fields(c: &Config) -> BTreeMap<String, String> {
    flat(&format!("{c:#?}"))
}

fn file(env: Option<&str>, set: &[(&Setting, String)]) -> String {
    let mut sections: BTreeMap<&str, Vec<String>> = BTreeMap::new();
    for (s, v) in set {
        sections.entry(s.0).or_default().push(format!("{} = {v}", s.1));
    }
    let mut text = env.map(|e| format!("environment = '{e}'\n")).unwrap_or_default();
    for (s, lines) in sections {
        text.push_str(&format!("[{s}]\n{}\n", lines.join("\n")));
    }
    text
}

/// What to write for a setting, and what it means: `!` is the opposite of the default.
fn choose(s: &Setting, defaults: &BTreeMap<String, String>) -> (String, String) {
    if s.2 == "!" {
        let v = if defaults.get(s.3).map(String::as_str) == Some("true") { "false" } else { "true" };
        (v.into(), v.into())
    } else {
        (s.2.into(), s.4.into())
    }
}

fn apply(want: &mut BTreeMap<String, String>, env: Environment, s: &Setting, v: &str) {
    if s.3.is_empty() || (s.0 == "consensus_constants" && env != Environment::Development) {
        return;
    }
    want.remove(s.3.trim_end_matches(".Some"));
    if v == "[]" {
        // an empty list is printed on its line
        want.remove(s.3);
    }
    want.insert(s.3.to_string(), v.to_string());
}

fn load(text: &str) -> Result<Config, String> {
    let p = guard(|| loader::from_str(text).map_err(|e| e.to_string()))?.map_err(|e| format!("{text}\nis refused: {e}"))?;
    guard(|| Config::from_partial(&p))
}

fn settings(run: &mut Run, name: &str, many: usize) {
    let n = SETTINGS.len();
    explore(run, name, |c: &mut Ch| {
        let (env_name, env) = c.of(&ENVS);
        let base = load(&file(Some(env_name), &[]))?;
        let defaults = fields(&base);
        let mut picked = vec![];
        let mut from = 0;
        for _ in 0..many {
            if from >= n {
                return Ok(());
            }
            let i = from + c.pick(n - from);
            from = i + 1;
            picked.push(i);
        }
        // not two of the same setting
        for (a, i) in picked.iter().enumerate() {
            for j in &picked[a + 1..] {
                if SETTINGS[*i].0 == SETTINGS[*j].0 && (SETTINGS[*i].1 == SETTINGS[*j].1 || SETTINGS[*i].3 == SETTINGS[*j].3) {
                    return Ok(());
                }
            }
        }
        let set: Vec<(&Setting, String)> = picked.iter().map(|i| (&SETTINGS[*i], choose(&SETTINGS[*i], &defaults).0)).collect();
        let text = file(Some(env_name), &set);
        c.op(|| text.clone());
        let got = load(&text)?;
        same!(got.environment, env, "the environment");
        let mut want = defaults.clone();
        for i in &picked {
            let s = &SETTINGS[*i];
            apply(&mut want, env, s, &choose(s, &defaults).1);
            if s.1 == "seed_password" {
                same!(got.wallet.seed_password.as_ref() as &str, "s", "the password of seeds");
            }
        }
        let have = fields(&got);
        if have != want {
            let diff: Vec<String> = have.keys().chain(want.keys()).filter(|k| have.get(*k) != want.get(*k)).map(|k| format!("{k}: code says {:?}, specification says {:?}", have.get(k), want.get(k))).collect();
            return Err(format!("{text}\n{}", diff.join("\n")));
        }
        // what is written is read back, but for secrets
        let written = toml::to_string(&got.to_partial()).map_err(|e| format!("{text}\ncannot be written: {e}"))?;
        let back = load(&written)?;
        let mut again = got.clone();
        again.wallet.seed_password = back.wallet.seed_password.clone();
        again.wallet.master_key_salt = back.wallet.master_key_salt.clone();
        ensure!(back == again, "{text}\nis written as\n{written}");
        ensure!(!written.contains("seed_password") && !written.contains("master_key_salt"), "secrets are written: {written}");
        c.outcome(env_name);
        Ok(())
    });
}

/// The constants that all nodes of a network have to share.
fn constants(run: &mut Run) {
    explore(run, "constants of each network", |c: &mut Ch| {
        let (name, env) = c.of(&ENVS);
        // no setting of a file changes them, but in development
        let junk = c.pick(3);
        let text = match junk {
            0 => String::new(),
            1 => "[consensus_constants]\ncheckpoints_period = 1\nmax_vt_weight = 1\nhalving_period = 1\ninitial_block_reward = 1\nbootstrapping_committee = []\ngenesis_hash = '0000000000000000000000000000000000000000000000000000000000000000'\n".into(),
            _ => SETTINGS.iter().filter(|s| s.0 == "consensus_constants").fold("[consensus_constants]\n".to_string(), |t, s| format!("{t}{} = {}\n", s.1, s.2)),
        };
        if env == Environment::Development && junk > 0 {
            return Ok(());
        }
        let got = load(&format!("environment = '{name}'\n{text}"))?;
        let k = &got.consensus_constants;
        let test = env == Environment::Testnet;
        same!(k.checkpoint_zero_timestamp, [1_602_666_000, 1_754_997_300, 1_600_851_600][env as usize], "when the {name} began");
        same!((k.checkpoints_period, k.superblock_period), (45, 10), "periods");
        same!(k.bootstrap_hash.to_string(), "666564676f6573627272727c2f3030312f3738392f3432382f6130312e676966", "the bootstrap hash");
        same!(k.genesis_hash.to_string(), if test { "1eed88826bdaf4b1f222bf19c0ebd372d2f6a6af2f23430fc22ee0d0911d8db0" } else { "6ca267d9accde3336739331d42d63509b799c6431e8d02b2d2cc9d3943d7ab02" }, "the genesis hash");
        same!((k.max_vt_weight, k.max_dr_weight), (20_000, 80_000), "weights");
        same!((k.activity_period, k.reputation_expire_alpha_diff, k.reputation_issuance, k.reputation_issuance_stop), (2000, 20_000, 1, 1 << 20), "reputation");
        same!(k.reputation_penalization_factor, 0.5, "penalties");
        same!((k.mining_backup_factor, k.mining_replication_factor), (8, 3), "mining");
        same!((k.collateral_minimum, k.collateral_age), (1_000_000_000, 1000), "collateral");
        same!((k.extra_rounds, k.minimum_difficulty, k.epochs_with_minimum_difficulty), (3, if test { 0 } else { 2000 }, 2000), "rounds and difficulty");
        same!((k.superblock_signing_committee_size, k.superblock_committee_decreasing_period, k.superblock_committee_decreasing_step), (100, 5, 5), "committees");
        same!((k.initial_block_reward, k.halving_period), (250_000_000_000, 3_500_000), "rewards");
        same!(k.bootstrapping_committee.len(), if test { 4 } else { 12 }, "the first committee");
        // the first committee can be read in its environment
        if env != Environment::Development {
            for a in &k.bootstrapping_committee {
                ensure!(witnet_data_structures::chain::PublicKeyHash::from_bech32(env, a).is_ok(), "{a} is no address of {name}");
            }
        }
        let p = &got.protocol;
        let want = if test { [Some((0, 45)), Some((15, 45)), Some((60, 20))] } else { [Some((0, 45)), Some((3_048_960, 45)), Some((3_108_950, 20))] };
        same!([p.v1_7, p.v1_8, p.v2_0], want, "when versions of the protocol begin");
        same!(p.iter().map(|x| x.1).collect::<Vec<_>>(), want.to_vec(), "when versions of the protocol begin");
        c.outcome(name);
        Ok(())
    });
}

fn files(run: &mut Run) {
    // the default is mainnet; each section alone, empty; what is not understood is refused
    let sections = ["connections", "storage", "consensus_constants", "jsonrpc", "mining", "wallet", "rocksdb", "log", "ntp", "mempool", "tapi", "witnessing", "protocol"];
    explore(run, "files", |c: &mut Ch| {
        let env = c.of(&[None, Some("mainnet"), Some("testnet"), Some("development"), Some("Mainnet"), Some("main"), Some("")]);
        let good = matches!(env, None | Some("mainnet" | "testnet" | "development"));
        let head = env.map(|e| format!("environment = '{e}'\n")).unwrap_or_default();
        let body: String = { let m = c.subset(sections.len()); (0..sections.len()).filter(|i| (m >> i) & 1 == 1).map(|i| format!("[{}]\n", sections[i])).collect() };
        let text = head.clone() + &body;
        c.op(|| text.clone());
        let read = guard(|| loader::from_str(&text).ok())?;
        same!(read.is_some(), good, "whether a file is read:\n{text}");
        if let Some(p) = read {
            let alone = loader::from_str(&head).map_err(|e| e.to_string())?;
            same!(Config::from_partial(&p), Config::from_partial(&alone), "a file of empty sections:\n{text}");
            if env.is_none() {
                same!(Config::from_partial(&p), Config::default(), "an empty file");
                same!(Config::from_partial(&PartialConfig::default()), Config::default(), "no file");
                same!(Config::default().environment, Environment::Mainnet, "the environment by default");
            }
        }
        Ok(())
    });
    explore(run, "malformed settings", |c: &mut Ch| {
        // a setting of another kind, or too large, is refused
        let s = c.of(SETTINGS);
        let number = s.2.parse::<f64>().is_ok();
        let duration = s.1.ends_with("_seconds") && s.0 != "wallet" || s.1.ends_with("_milliseconds");
        let bad = match c.pick(4) {
            0 if number => "'x'",
            0 => "3.5e400",
            1 if number && s.1 != "reputation_penalization_factor" => "99999999999999999999",
            1 => return Ok(()),
            2 if number => "[]",
            2 if s.2 == "!" => "1",
            2 if s.2.starts_with('\'') => "7",
            2 => return Ok(()),
            _ => "{ a = 1 }",
        };
        if bad == "3.5e400" || duration {
            // periods of another kind count as not given: not claimed
            return Ok(());
        }
        let text = file(None, &[(&s, bad.to_string())]);
        c.op(|| text.clone());
        ensure!(guard(|| loader::from_str(&text).is_err())?, "accepted:\n{text}");
        Ok(())
    });
    explore(run, "a file on disk", |c: &mut Ch| {
        let dir = std::env::temp_dir().join(format!("c48-{}-{}", std::process::id(), c.pick(1)));
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        let path = dir.join("witnet.toml");
        let text = "environment = 'testnet'\n[log]\nsentry_telemetry = true\n";
        std::fs::write(&path, text).map_err(|e| e.to_string())?;
        let got = loader::from_file(&path).map_err(|e| e.to_string());
        std::fs::write(&path, "environment = 'x'").ok();
        let bad = loader::from_file(&path).is_err();
        std::fs::remove_file(&path).ok();
        let none = loader::from_file(&path).is_err();
        std::fs::remove_dir(&dir).ok();
        same!(Config::from_partial(&got?), load(text)?, "a file");
        same!((bad, none), (true, true), "a wrong file and no file are refused");
        Ok(())
    });
    explore(run, "ways to retrieve", |c: &mut Ch| {
        let direct = c.flag();
        let proxies = c.seq(&["p", "q", "http://r:1"], 3);
        let percent = c.of(&[0u8, 1, 50, 51, 99, 100]);
        let w = witnet_config::config::Witnessing { allow_unproxied: direct, paranoid_percentage: percent, proxies: proxies.iter().map(|p| p.to_string()).collect() };
        c.op(|| format!("{w:?}"));
        let got = guard(|| w.into_config());
        if !direct && proxies.is_empty() {
            ensure!(got.is_err(), "no way to retrieve is accepted");
            return Ok(());
        }
        let got = got?;
        let mut want: Vec<Option<String>> = proxies.iter().map(|p| Some(p.to_string())).collect();
        if direct {
            want.insert(0, None);
        }
        same!(got.transports, want.clone(), "the ways to retrieve");
        same!(got.paranoid_threshold, f32::from(percent) / 100.0, "the share that has to agree");
        same!(got.transports_as::<String>().ok(), Some(want), "the ways to retrieve, read");
        // what is no number is reported, the first one
        same!(got.transports_as::<u8>().err().map(|e| e.0), proxies.first().map(|p| p.to_string()), "a way that cannot be read");
        Ok(())
    });
}

pub fn config(run: &mut Run) {
    files(run);
    constants(run);
    settings(run, "one setting", 1);
    settings(run, "two settings", 2);
    if run.thorough() {
        settings(run, "three settings", 3);
    }
}

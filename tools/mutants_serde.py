A = "analyzeme/src/analysis.rs"
M("c33-rename", "C33", A, "    pub artifact_sizes: Vec<ArtifactSize>,\n    pub total", "    #[serde(rename = \"artifacts\")]\n    pub artifact_sizes: Vec<ArtifactSize>,\n    pub total")
M("c33-swapnames", "C33", A, "    pub blocked_time: Duration,\n    pub incremental_load_time: Duration,", "    #[serde(rename = \"incremental_load_time\")]\n    pub blocked_time: Duration,\n    #[serde(rename = \"blocked_time\")]\n    pub incremental_load_time: Duration,")
M("c33-skipread", "C33", A, "    pub incremental_hashing_time: Duration,\n}\n\nimpl QueryData", "    #[serde(skip_deserializing)]\n    pub incremental_hashing_time: Duration,\n}\n\nimpl QueryData")
M("c33-skipwrite", "C33", A, "    pub number_of_cache_misses: usize,\n    pub number_of_cache_hits: usize,\n    pub inv", "    #[serde(skip_serializing)]\n    pub number_of_cache_misses: usize,\n    pub number_of_cache_hits: usize,\n    pub inv")
M("c33-camel", "C33", A, "#[derive(Serialize, Deserialize, Debug, Clone)]\npub struct ArtifactSize {", "#[derive(Serialize, Deserialize, Debug, Clone)]\n#[serde(rename_all = \"UPPERCASE\")]\npub struct ArtifactSize {")
M("c33-millis", "C33", A, "    pub incremental_load_time: Duration,\n    pub incremental_hashing_time: Duration,\n}\n\nimpl QueryData {", "    #[serde(serialize_with = \"as_micros\")]\n    pub incremental_load_time: Duration,\n    pub incremental_hashing_time: Duration,\n}\n\nfn as_micros<S: serde::Serializer>(d: &Duration, s: S) -> Result<S::Ok, S::Error> {\n    Duration::from_micros(d.as_micros() as u64).serialize(s)\n}\n\nimpl QueryData {")
M("c33-skipempty", "C33", A, "    pub incremental_hashing_time: Duration,\n}\n\nimpl QueryData", "    #[serde(default, skip_serializing_if = \"Duration::is_zero\")]\n    pub incremental_hashing_time: Duration,\n}\n\nimpl QueryData")
M("c33-default-ok", "C33", A, "    pub artifact_sizes: Vec<ArtifactSize>,\n    pub total", "    #[serde(default)]\n    pub artifact_sizes: Vec<ArtifactSize>,\n    pub total", "ok")
M("c33-order-ok", "C33", A, "    pub label: String,\n    pub value: u64,", "    pub value: u64,\n    pub label: String,", "ok")
M("c33-overwrite", "C33", A, "        self.value += value;", "        self.value = self.value.max(value);")
M("c33-wrap", "C33", A, "        self.value += value;", "        self.value = (self.value as u32).wrapping_add(value as u32) as u64;")
M("c33-valuealias-ok", "C33", A, "        self.value += value;", "        let total = self.value + value;\n        self.value = total;", "ok")

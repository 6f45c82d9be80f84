PROPERTY = {
 "id": "C14", "title": "Diagnostics are recorded exactly as the configuration says",
 "statement": "A diagnostic whose type the configuration disables is dropped; one it gives a severity is recorded with that severity; any other keeps its own. Then one less severe than the configured error level is dropped (error > warning > info > hint). What is recorded is otherwise unchanged and in order of occurrence.",
 "quantifier": {"over": ["inputs", "histories"], "text": "all configurations and sequences of diagnostics"},
 "why_tests_cant": "The interplay of level and per-type setting has dozens of combinations; tests use the default configuration.",
 "anchors": {"files": ["crates/dreammaker/src/config.rs", "crates/dreammaker/src/error.rs"],
  "state": [{"name": "Config.{display,diagnostics}", "meaning": "error level and per-type settings", "where": "crates/dreammaker/src/config.rs"}, {"name": "Context.errors", "meaning": "recorded diagnostics", "where": "crates/dreammaker/src/error.rs"}],
  "mechanism": [{"name": "Config::{config_warninglevel,set_configured_severity,registerable_error}, WarningLevel::applies_to", "where": "crates/dreammaker/src/config.rs"}, {"name": "Context::register_error, DMError::{register,set_severity,with_errortype}", "where": "crates/dreammaker/src/error.rs"}],
  "observe_at": ["Context::errors", "Context::force_config"], "hook_needed": None},
}
CHECK = {
 "feature": "diag", "units": ["diag"], "secs": 8,
 "technique": "deductive verification (Verus) of the extracted filtering functions",
 "level": "proof",
 "level_note": "The whole path from DMError::register to the recorded list is proved for every configuration and diagnostic; reading the configuration file (toml, its aliases) is searched only.",
 "explanation": "register_error's postcondition gives the recorded list as a function of configuration and diagnostic.",
 "assumptions": ["HashMap<String, WarningLevel>::get behaves as a map", "RefCell borrows are replaced by direct access", "printing to stderr does not change what is recorded", "derived order of Severity is that of its discriminants"],
}

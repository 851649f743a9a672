"""Matchers for the entries of known_findings.jsonl (identify the failing input, nothing wider)."""

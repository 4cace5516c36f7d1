"""One-off: generates mc/keys.json (throw-away test keys, committed so every run uses the same)."""
import json
from cryptojwt.jwk.rsa import new_rsa_key

out = []
for i in range(16):
    k = new_rsa_key(key_size=2048, kid=f"k{i:02d}", use="sig")
    out.append(k.serialize(private=True))
json.dump(out, open(__file__.replace("mkkeys.py", "keys.json"), "w"), indent=0)

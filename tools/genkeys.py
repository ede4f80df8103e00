"""Makes sim/keys.json: fixed 1024-bit RSA keys for simulated parties (test data only)."""
import json
from Crypto.PublicKey import RSA
json.dump([RSA.generate(1024).export_key().decode() for _ in range(10)], open("/verif/sim/keys.json", "w"), indent=0)

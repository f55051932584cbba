NOTES = {
 'C21': 'Effect contracts (a reads-frame: inputs, own state and the seeded stream only) discharged for every function under contract in C01-C19 and for the entry points; whole runs in two differing environments are a bounded cross-check.',
}
NA = {}

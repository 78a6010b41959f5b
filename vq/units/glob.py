SOURCES = ['src/glob.cpp']
CONTRACTS = ['glob.vqc']
SPECS = ['glob.rs']

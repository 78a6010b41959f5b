SOURCES = ['src/id_generation.cpp']
CONTRACTS = ['idnorm.vqc']
SPECS = ['idnorm.rs']

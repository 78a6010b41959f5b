from trans import *
SOURCES = ['src/files.cpp']
CONTRACTS = ['files.vqc']
SPECS = ['files.rs']


def setup(m, lib):
    m.records['file_position'] = RecModel(m, 'file_position', copy=True)

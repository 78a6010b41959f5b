from trans import *
SOURCES = ['src/html_printer.cpp', 'src/utils.cpp']
CONTRACTS = ['encode.vqc', 'html.vqc']
IMPORTS = {'encode.vqc': 'utils'}
SPECS = ['utils.rs', 'html.rs']


def setup(m, lib):
    m.records['html_printer'] = RecModel(m, 'html_printer')

// Running the whole program (every file of /repo/src) on a document.  Compiled with -Dmain=quickbook_main.
#pragma once
#undef main
#include "h.hpp"
#include <fstream>
#include <iostream>
int quickbook_main(int argc, char* argv[]);
namespace whole {
    struct Result { int rc; std::string out, messages; };
    inline void write(std::string const& path, std::string const& text)
    {
        std::ofstream f(path.c_str(), std::ios::binary);
        f << text;
    }
    inline std::string read(std::string const& path)
    {
        std::ifstream f(path.c_str(), std::ios::binary);
        std::stringstream s;
        s << f.rdbuf();
        return s.str();
    }
    // run the program in the scratch directory check.py made for it
    inline Result run(std::vector<std::string> args, std::string const& output)
    {
        std::remove(output.c_str());
        args.insert(args.begin(), "quickbook");
        std::vector<char*> argv;
        for (size_t i = 0; i < args.size(); ++i) argv.push_back(&args[i][0]);
        std::stringstream err;
        std::streambuf* a = std::cerr.rdbuf(err.rdbuf());
        std::streambuf* b = std::cout.rdbuf(err.rdbuf());
        std::streambuf* c = std::clog.rdbuf(err.rdbuf());
        Result r;
        r.rc = quickbook_main((int)argv.size(), &argv[0]);
        std::cerr.rdbuf(a);
        std::cout.rdbuf(b);
        std::clog.rdbuf(c);
        r.messages = err.str();
        r.out = read(output);
        return r;
    }
    inline Result run(std::string const& doc, std::vector<std::string> args = std::vector<std::string>())
    {
        static int n = 0;           // the program keeps the files it has read
        std::string name = "doc" + std::to_string(++n) + ".qbk";
        write(name, doc);
        args.push_back("--no-pretty-print");
        args.push_back("--output-file=doc.xml");
        args.push_back(name);
        Result r = run(args, "doc.xml");
        std::remove(name.c_str());
        return r;
    }
}

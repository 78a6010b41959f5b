// What a template call, an included or an imported file changes.
#include "scope.hpp"
static void search() { while (h::time_left()) scope_files::one(); if (getenv("STATS")) fprintf(stderr, "%d tries, %d documents, %d with errors\n", scope_files::tries, scope_files::made, scope_files::errors); }
int main(int argc, char** argv) { h::init(argc, argv); search(); h::report(); return 0; }

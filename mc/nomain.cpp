// stand-in for the command-line entry point in the BDD-layer driver binary
int slugs_main(int, const char **) { return 99; }

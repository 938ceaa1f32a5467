extern "C" int main(int argc, char **argv); // renamed

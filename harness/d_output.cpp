// A program around the functions that hand out names for outputs, for bin/interleave.py.
#include "Input_output.hpp"
#include <iostream>
#include <string>

int main(int argc, char **argv) {
  try {
    std::string what = argc > 1 ? argv[1] : "";
    std::filesystem::path got;
    if (what == "inside") {
      // lines of a directory and a name: does the name lead into the directory?
      std::string root, name;
      while (std::getline(std::cin, root, '\t') and std::getline(std::cin, name))
        std::cout << (io::absolute_file_path_in_root(root, name) ? "in" : "out") << std::endl;
      return 0;
    }
    if (what == "file") {
      got = io::create_new_output_file("out/states.json", io::attach_epoch_count);
    } else if (what == "directory") {
      got = io::unique_output_directory("out", io::millisecond_datetime_timestamp);
    } else if (what == "outputfile") {
      got = io::prepare_output_file(".");
    } else if (what == "stamp") {
      got = io::millisecond_datetime_timestamp();
    }
    std::cout << got.string() << std::endl;
    return got.empty() ? 3 : 0;
  } catch (std::exception const &e) {
    std::cout << "Error: " << e.what() << std::endl;
    return 1;
  }
}

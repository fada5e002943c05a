#!/bin/bash
# Checks that the tools needed by the checks are there. The checks build themselves from /repo's current tree.
cd "$(dirname "$(realpath "$0")")" || exit 1
mkdir -p build replays evidence
for t in g++ make; do command -v $t >/dev/null || { echo "missing: $t"; exit 1; }; done
echo '#include <boost/log/core.hpp>
#include <boost/unordered_map.hpp>
#include <eigen3/Eigen/Core>
int main() { boost::log::core::get()->set_logging_enabled(false); }' > build/probe.cc
g++ -std=c++17 -DBOOST_LOG_DYN_LINK=1 build/probe.cc -o build/probe -lboost_log -lboost_thread -lboost_system -lpthread || exit 1
echo ok

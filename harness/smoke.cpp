#include "net.hpp"
#include <iostream>
int main(int argc, char** argv) {
    mc::Config c; c.property = "SMOKE"; c.level = "model_checking"; c.workers = 1;
    return mc::main(argc, argv, c, [](bool, std::vector<mc::Space>& sp) {
        mc::Space s; s.name = "smoke"; s.size = 1;
        s.run = [](uint64_t, mc::Run& run) {
            net::loadExtensions();
            net::Network n = net::full();
            auto d = net::dump(n);
            std::cerr << net::flat(d) << d.size() << "\n";
            std::string x = net::writeXml(n);
            std::cerr << x << "\n";
            net::Network m = net::readXml(x);
            std::cerr << "DIFF\n" << net::diff(d, net::dump(m), 60) << "END\n";
            std::string y = net::writeXml(m);
            std::cerr << (x == y) << "\n";
        };
        sp.push_back(s);
    });
}

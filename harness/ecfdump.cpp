// Reads the configuration as espreso does and prints every parameter of it.
// usage: ecfdump [espreso arguments]; environment: ECFDUMP = prefix of output files, ECFSCHEMA = print types, options, and patterns

#include "esinfo/eslog.hpp"
#include "esinfo/mpiinfo.h"
#include "esinfo/ecfinfo.h"
#include "esinfo/systeminfo.h"
#include "basis/logging/logger.h"
#include "basis/logging/progresslogger.h"
#include "wrappers/mpi/communication.h"
#include "config/ecf/ecf.h"
#include "config/configuration.h"
#include "config/holders/valueholder.h"
#include "config/reader/reader.h"

#include <cstdlib>
#include <fstream>
#include <set>

using namespace espreso;

static std::string escape(const std::string &s)
{
    std::string out;
    for (char c : s) {
        switch (c) {
        case '\\': out += "\\\\"; break;
        case '\n': out += "\\n"; break;
        case '\t': out += "\\t"; break;
        default: out += c;
        }
    }
    return out;
}

static void dump(std::ostream &os, const ECFObject &object, const std::string &prefix, bool schema, int depth)
{
    auto print = [&] (const ECFParameter *p, const std::string &name) {
        if (p->isValue()) {
            os << "V\t" << escape(prefix + name);
            if (schema) {
                os << "\t" << (p->metadata.datatype.size() ? static_cast<int>(p->metadata.datatype.front()) : -1) << "\t";
                for (size_t i = 0; i < p->metadata.options.size(); ++i) {
                    os << (i ? "," : "") << escape(p->metadata.options[i].name);
                }
            }
            os << "\t" << escape(p->getValue());
            if (schema) {
                os << "\t" << (dynamic_cast<const ECFValueHolder<size_t>*>(p) ? "unsigned" : "");
            }
            os << "\n";
        }
        if (p->isObject()) {
            os << "O\t" << escape(prefix + name) << "\n";
            if (depth < 12) {
                dump(os, *dynamic_cast<const ECFObject*>(p), prefix + name + "::", schema, depth + 1);
            }
        }
    };
    for (size_t i = 0; i < object.parameters.size(); ++i) {
        print(object.parameters[i], object.parameters[i]->name);
    }
    if (schema) {
        ECFParameter *pattern = object.getPattern();
        if (pattern) {
            os << "P\t" << escape(prefix + "*") << "\t" << (object.metadata.datatype.size() ? static_cast<int>(object.metadata.datatype.front()) : -1) << "\n";
            print(pattern, "*");
        }
    }
}

int main(int argc, char **argv)
{
    info::system::setSignals();
    info::mpi::init(&argc, &argv);
    MPITools::init();
    eslog::init(new Logger<ProgressTerminalLogger>());

    ECF ecf;
    std::string prefix = std::getenv("ECFDUMP") ? std::getenv("ECFDUMP") : "dump";
    if (std::getenv("ECFSCHEMA")) {
        std::ofstream os(prefix + ".schema");
        dump(os, *ecf.ecfdescription, "", true, 0);
        std::ofstream st(prefix + ".stored");
        ECFReader::store(*ecf.ecfdescription, st, false, true);
    } else {
        ECFReader::read(*ecf.ecfdescription, &argc, &argv, ecf.ranges, ecf.default_args, ecf.variables);
        {
            std::ofstream os(prefix + "." + std::to_string(info::mpi::rank));
            dump(os, *ecf.ecfdescription, "", false, 0);
        }
        if (info::mpi::rank == 0) {
            std::ofstream os(prefix + ".stored");
            ECFReader::store(*ecf.ecfdescription, os, false, false);
        }
        for (auto r = ecf.ranges.begin(); r != ecf.ranges.end(); ++r) { // parameters bound to ranges
            std::ofstream os(prefix + "." + std::to_string(info::mpi::rank), std::ofstream::app);
            os << "R\t" << escape(r->first) << "\t" << r->second.parameter.size() << "\n";
        }
    }
    info::mpi::finish();
    return 0;
}

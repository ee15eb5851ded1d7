#include <cstdio>
#include <cstdlib>
#include <glog/logging.h>
#include <unistd.h>

#include "common.h"
#include "monitor.h"

int main(int argc, char** argv) {
    using namespace vh;
    google::InitGoogleLogging(argv[0]);
    FLAGS_logtostderr = true;
    FLAGS_minloglevel = google::GLOG_ERROR;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> std::string {
            if (i + 1 >= argc) {
                fprintf(stderr, "missing value of %s\n", a.c_str());
                _exit(2);
            }
            return argv[++i];
        };
        if (a == "--seed") {
            args.seed = std::stoull(val());
        } else if (a == "--cases") {
            args.cases = std::stoull(val());
        } else if (a == "--out") {
            args.out = val();
        } else if (a == "--status") {
            args.status = val();
        } else if (a == "--dir") {
            args.dir = val();
        } else if (a.rfind("--", 0) == 0) {
            args.opt[a.substr(2)] = val();
        } else {
            args.driver = a;
        }
    }
    auto d = drivers().find(args.driver);
    if (d == drivers().end() || args.out.empty() || args.dir.empty()) {
        fprintf(stderr, "usage: vdrv <driver> --out F --dir D [--seed S] [--cases N] ...\n");
        for (auto& x : drivers()) { fprintf(stderr, "  %s\n", x.first.c_str()); }
        return 2;
    }
    install_log_sink();
    standin::noise_seed.store(args.seed + 1);
    start_supervisor(static_cast<unsigned>(args.num("hang", 60)));
    try {
        d->second();
    } catch (Stop& e) {
        fprintf(stderr, "stopped: %s\n", e.what());
        res.write(args.out, true);
        _exit(0);
    } catch (HarnessError& e) {
        fprintf(stderr, "HARNESS-ERROR %s\n", e.what());
        res.write(args.out, false);
        _exit(3);
    }
    res.count("engine_blocks_reached", 0);
    res.maxi("engine_blocks", standin::cov_count());
    res.count("noise_fired", standin::noise_fired.load());
    res.count("pauses_taken", standin::pauses_taken.load());
    res.count("index_splits", standin::idx_splits.load());
    res.write(args.out, true);
    return 0;
}

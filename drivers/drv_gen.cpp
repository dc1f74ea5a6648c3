// drv_gen DIR EXT...: the confirmation dialogue on a small set of particles and any list of file extensions (as another generator would use it).
#include "generator/generator_src/generator_dialogue.hpp"
#include <filesystem>
int main(int argc, char** argv) {
    Particles ps;
    for (int k = 0; k < 3; k++) ps.add(Particle(k, k == 2 ? ParticleType::Wall : ParticleType::Fluid, Eigen::Vector3d(0.1 * k, 0.2, 0), Eigen::Vector3d(0, -k, 0), 1000.0));
    GeneratorDialogue g;
    g.generatorDialogue(std::filesystem::path(argv[1]), ps, std::vector<std::string>(argv + 2, argv + argc));
    return 0;
}

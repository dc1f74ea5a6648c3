From f497994c4df939c25dcb4bf528a7f2fc1ba48732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 01/16] fix: do not load number density as density from VTU
 files

---
 src/particles_loader/vtu.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/particles_loader/vtu.cpp b/src/particles_loader/vtu.cpp
index d66ab11..9284a79 100644
--- a/src/particles_loader/vtu.cpp
+++ b/src/particles_loader/vtu.cpp
@@ -100,7 +100,8 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
         }
 
         // Extract densities
-        if (line.find("Density") != std::string::npos) {
+        // The whole name is matched so that "Number Density" and "Number Density Ratio" are not taken for the density.
+        if (line.find("\"Density\"") != std::string::npos || line.find("'Density'") != std::string::npos) {
             while (std::getline(ifs, line) && line.find("</DataArray>") == std::string::npos) {
                 double density;
                 std::istringstream iss(line);
-- 
2.43.0


From a0c7e3cc77e47cc7e22e498cd326148ba9a7dd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 02/16] fix: treat NaN positions as out of domain instead of
 indexing buckets with them

---
 src/bucket.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bucket.cpp b/src/bucket.cpp
index d616aa3..d1c8b80 100644
--- a/src/bucket.cpp
+++ b/src/bucket.cpp
@@ -44,6 +44,8 @@ void Bucket::storeParticles(Particles& particles) {
             isInDomain = false;
         if (p.position.z() < domain.zMin || domain.zMax < p.position.z())
             isInDomain = false;
+        if (!p.position.allFinite()) // NaN passes the comparisons above
+            isInDomain = false;
         if (!isInDomain) {
             cerr << "WARNING: particle " << p.id << " is out of domain." << endl;
             cerr << "x = " << p.position.x() << " ";
-- 
2.43.0


From 9d0fdaa83f7f06d7786ec98c69558d6aaab45754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 03/16] fix: exit with an error when an output file cannot be
 written completely

---
 src/particles_exporter.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/particles_exporter.cpp b/src/particles_exporter.cpp
index fb0e6c9..8ff672f 100644
--- a/src/particles_exporter.cpp
+++ b/src/particles_exporter.cpp
@@ -64,6 +64,12 @@ void ParticlesExporter::toProf(const fs::path& path, const double& time) {
         ofs << p.velocity.x() << " " << p.velocity.y() << " " << p.velocity.z();
         ofs << endl;
     }
+
+    ofs.close();
+    if (ofs.fail()) {
+        cerr << "cannot write " << path << endl;
+        std::exit(-1);
+    }
 }
 void ParticlesExporter::toVtuAscii(const fs::path& path, const double& time, const double& n0ForNumberDensity) {
     std::ofstream ofs(path);
@@ -177,6 +183,12 @@ void ParticlesExporter::toVtuAscii(const fs::path& path, const double& time, con
     ofs << "</FieldData>" << endl;
     ofs << "</UnstructuredGrid>" << endl;
     ofs << "</VTKFile>" << endl;
+
+    ofs.close();
+    if (ofs.fail()) {
+        cerr << "cannot write " << path << endl;
+        std::exit(-1);
+    }
 }
 
 void ParticlesExporter::toVtuBinary(const fs::path& path, const double& time, const double& n0ForNumberDensity) {
@@ -341,6 +353,12 @@ void ParticlesExporter::toVtuBinary(const fs::path& path, const double& time, co
     ofs << "_" << binaryData.str() << endl;
     ofs << "</AppendedData>" << endl;
     ofs << "</VTKFile>" << endl;
+
+    ofs.close();
+    if (ofs.fail()) {
+        cerr << "cannot write " << path << endl;
+        std::exit(-1);
+    }
 }
 
 void ParticlesExporter::toVtu(
@@ -370,4 +388,10 @@ void ParticlesExporter::toCsv(const fs::path& path, const double& time) {
         ofs << p.velocity.x() << "," << p.velocity.y() << "," << p.velocity.z();
         ofs << endl;
     }
+
+    ofs.close();
+    if (ofs.fail()) {
+        cerr << "cannot write " << path << endl;
+        std::exit(-1);
+    }
 }
-- 
2.43.0


From de56f18bf2df5dacb15c703da4e4dc35a0b8da37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 04/16] fix: stop asking for confirmation when the generator
 reaches the end of its input

---
 generator/generator_src/generator_dialogue.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/generator/generator_src/generator_dialogue.cpp b/generator/generator_src/generator_dialogue.cpp
index 9752dbe..73213e0 100644
--- a/generator/generator_src/generator_dialogue.cpp
+++ b/generator/generator_src/generator_dialogue.cpp
@@ -37,7 +37,10 @@ void GeneratorDialogue::generatorDialogue(
             std::string response;
             while (true) {
                 std::cout << "Are you sure you want to overwrite the input files? (y/n): ";
-                std::cin >> response;
+                if (!(std::cin >> response)) {
+                    std::cout << "No response. The request has been cancelled." << std::endl;
+                    std::exit(0);
+                }
                 if (response == "n" || response == "N") {
                     std::cout << "The request has been cancelled." << std::endl;
                     std::exit(0);
-- 
2.43.0


From 760d3b8a4599e23804d937a40a67fd113b1e9207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 05/16] fix: sum reference values over the whole effective
 radius when it exceeds 5 particle distances

---
 src/refvalues.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/refvalues.cpp b/src/refvalues.cpp
index 281bb71..edad125 100644
--- a/src/refvalues.cpp
+++ b/src/refvalues.cpp
@@ -9,8 +9,10 @@
 RefValues::RefValues(int dim, double particleDistance, double re) {
     assert(dim == 2 || dim == 3);
     assert(particleDistance < re);
-    int iZ_start = -4;
-    int iZ_end   = 5;
+    // number of lattice points inside the effective radius along each axis
+    int range    = (int) std::ceil(re / particleDistance);
+    int iZ_start = -range;
+    int iZ_end   = range + 1;
     if (dim == 2) {
         iZ_start = 0;
         iZ_end   = 1;
@@ -18,8 +20,8 @@ RefValues::RefValues(int dim, double particleDistance, double re) {
 
     this->n0     = 0.0;
     this->lambda = 0.0;
-    for (int iX = -4; iX < 5; iX++) {
-        for (int iY = -4; iY < 5; iY++) {
+    for (int iX = -range; iX <= range; iX++) {
+        for (int iY = -range; iY <= range; iY++) {
             for (int iZ = iZ_start; iZ < iZ_end; iZ++) {
                 if (((iX == 0) && (iY == 0)) && (iZ == 0))
                     continue;
-- 
2.43.0


From d7b8ceab5137aff1cba240d6884e3262967d9627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 06/16] fix: reject prof files whose particle data is missing
 or malformed

---
 src/particles_loader/prof.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/particles_loader/prof.cpp b/src/particles_loader/prof.cpp
index 74cfc74..e7e67c1 100644
--- a/src/particles_loader/prof.cpp
+++ b/src/particles_loader/prof.cpp
@@ -23,6 +23,10 @@ std::pair<double, Particles> Prof::load(const fs::path& path, double defaultDens
     int particleSize = 0;
     ifs >> startTime;
     ifs >> particleSize;
+    if (ifs.fail()) {
+        cerr << "invalid header in prof file: " << fs::absolute(path) << endl;
+        std::exit(-1);
+    }
     for (int i = 0; i < particleSize; i++) {
         int type_int = 0;
         ParticleType type;
@@ -31,6 +35,10 @@ std::pair<double, Particles> Prof::load(const fs::path& path, double defaultDens
         ifs >> type_int;
         ifs >> pos.x() >> pos.y() >> pos.z();
         ifs >> vel.x() >> vel.y() >> vel.z();
+        if (ifs.fail()) {
+            cerr << "invalid data of particle " << i << " in prof file: " << fs::absolute(path) << endl;
+            std::exit(-1);
+        }
 
         type = static_cast<ParticleType>(type_int);
         particles.add(Particle(particles.size(), type, pos, vel, defaultDensity));
-- 
2.43.0


From 5d07a43bb7baf6bfc28cf2e5487c562d8b73d481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 07/16] fix: reject csv files that lack a required column

---
 src/particles_loader/csv.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/particles_loader/csv.cpp b/src/particles_loader/csv.cpp
index d0bcb40..f386983 100644
--- a/src/particles_loader/csv.cpp
+++ b/src/particles_loader/csv.cpp
@@ -21,6 +21,12 @@ std::pair<double, Particles> Csv::load(const fs::path& path, double defaultDensi
     double numParticles = std::stod(in.next_line());
 
     in.read_header(io::ignore_missing_column, "type", "fluidType", "x", "y", "z", "vx", "vy", "vz", "density");
+    for (const auto& column : {"type", "x", "y", "z", "vx", "vy", "vz"}) {
+        if (!in.has_column(column)) {
+            cerr << "column " << column << " is missing in csv file: " << fs::absolute(path) << endl;
+            std::exit(-1);
+        }
+    }
     int type;
     int fluidType = 0;
     double x, y, z, vx, vy, vz;
-- 
2.43.0


From 87b101fbf1cbd31e3c6abfdb23c6ddec2dbccfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 08/16] fix: avoid integer overflow in the remaining time
 estimate of long runs

---
 src/simulation.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/simulation.cpp b/src/simulation.cpp
index 587e2fa..0386516 100644
--- a/src/simulation.cpp
+++ b/src/simulation.cpp
@@ -4,6 +4,7 @@
 #include "mps_factory.hpp"
 #include "particles_loader/csv.hpp"
 
+#include <algorithm>
 #include <cstdio>
 #include <iostream>
 #include <memory>
@@ -77,7 +78,9 @@ void Simulation::timeStepReport(
     if (timeStep == 0) {
         remain += "-h --m --s";
     } else {
-        auto totalTime = chrono::nanoseconds((int64_t) (ave * (endTime - startTime) / dt * 1e9));
+        // limit the estimate so that it does not overflow the integer type when a large number of steps remain
+        double totalSeconds = std::min(ave * (endTime - startTime) / dt, 9.0e9);
+        auto totalTime      = chrono::nanoseconds((int64_t) (totalSeconds * 1e9));
         remain += calHourMinuteSecond(totalTime - elapsedTime);
     }
     double last = chrono::duration_cast<chrono::nanoseconds>(timeStepEndTime - timeStepStartTime).count() * 1e-9;
-- 
2.43.0


From dbe73a796d769b19f003cb395453115b7bfce79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:56 +0000
Subject: [PATCH 09/16] fix: do not accept pressures that do not satisfy the
 Poisson equation

---
 src/pressure_calculator/pressure_poisson_equation.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pressure_calculator/pressure_poisson_equation.cpp b/src/pressure_calculator/pressure_poisson_equation.cpp
index 191cab3..b15dab0 100644
--- a/src/pressure_calculator/pressure_poisson_equation.cpp
+++ b/src/pressure_calculator/pressure_poisson_equation.cpp
@@ -46,7 +46,10 @@ std::vector<double> PressurePoissonEquation::solve() {
     Eigen::BiCGSTAB<Eigen::SparseMatrix<double, Eigen::RowMajor>> solver;
     solver.compute(coefficientMatrix);
     Eigen::VectorXd pressure = solver.solve(sourceTerm);
-    if (solver.info() != Eigen::Success) {
+    // The solver judges convergence by a recursively updated residual, which on (nearly) singular systems can drift away
+    // from the true one, so that a meaningless result is reported as success. The true residual is therefore checked too.
+    const double residual = (sourceTerm - coefficientMatrix * pressure).norm();
+    if (solver.info() != Eigen::Success || !(residual <= 1.0e-6 * sourceTerm.norm())) {
         cerr << "Pressure calculation failed." << endl;
         std::exit(-1);
     }
-- 
2.43.0


From f5d8d19ad721fbcad181fb02ff836b53cefc38aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:25 +0000
Subject: [PATCH 10/16] fix: reject vtu files that are incomplete or
 inconsistent

---
 src/particles_loader/vtu.cpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/particles_loader/vtu.cpp b/src/particles_loader/vtu.cpp
index 9284a79..c041476 100644
--- a/src/particles_loader/vtu.cpp
+++ b/src/particles_loader/vtu.cpp
@@ -1,5 +1,6 @@
 #include "vtu.hpp"
 
+#include <cmath>
 #include <fstream>
 #include <iostream>
 #include <sstream>
@@ -43,8 +44,22 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
     std::vector<int> fluidTypes;
     std::vector<double> densities;
 
+    size_t declaredParticles = 0;
+    bool isComplete          = false; // whether the closing tag has been found
+
     // Parse VTU file
     while (std::getline(ifs, line)) {
+        // Extract the number of particles
+        auto numberOfPoints = line.find("NumberOfPoints=");
+        if (numberOfPoints != std::string::npos) {
+            // skip the quotation mark following the attribute name
+            std::istringstream iss(line.substr(numberOfPoints + std::string("NumberOfPoints=").size() + 1));
+            iss >> declaredParticles;
+        }
+        if (line.find("</VTKFile>") != std::string::npos) {
+            isComplete = true;
+        }
+
         // Extract start time
         if (line.find("Time") != std::string::npos) {
             std::getline(ifs, line);
@@ -113,8 +128,16 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
         }
     }
 
-    // Construct particles
+    // Truncated files and files whose arrays do not belong together must not be taken for smaller problems
     size_t numParticles = positions.size();
+    auto isWrongSize    = [&](size_t size) { return size != 0 && size != numParticles; };
+    if (!isComplete || std::isnan(startTime) || numParticles != declaredParticles || isWrongSize(velocities.size()) ||
+        isWrongSize(types.size()) || isWrongSize(fluidTypes.size()) || isWrongSize(densities.size())) {
+        cerr << "vtu file is incomplete or inconsistent: " << fs::absolute(path) << endl;
+        std::exit(-1);
+    }
+
+    // Construct particles
     for (size_t i = 0; i < numParticles; ++i) {
         Eigen::Vector3d pos = positions[i];
         Eigen::Vector3d vel = (i < velocities.size()) ? velocities[i] : Eigen::Vector3d(0, 0, 0);
-- 
2.43.0


From 1885ff519e3440ca9289ae2c4633585fad004d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:25 +0000
Subject: [PATCH 11/16] fix: reject csv files with fewer particles than
 declared

---
 src/particles_loader/csv.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/particles_loader/csv.cpp b/src/particles_loader/csv.cpp
index f386983..af77754 100644
--- a/src/particles_loader/csv.cpp
+++ b/src/particles_loader/csv.cpp
@@ -41,6 +41,12 @@ std::pair<double, Particles> Csv::load(const fs::path& path, double defaultDensi
         particles.add(Particle(particles.size(), static_cast<ParticleType>(type), pos, vel, density, fluidType));
     }
 
+    if (!(particles.size() >= numParticles)) {
+        cerr << "csv file has only " << particles.size() << " of " << numParticles
+             << " particles: " << fs::absolute(path) << endl;
+        std::exit(-1);
+    }
+
     return std::make_pair(startTime, particles);
 }
 
-- 
2.43.0


From ec2ed3f416a22dcefbc2d8d5f9c3da624b2a38e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:05 +0000
Subject: [PATCH 12/16] fix: reject domains with more buckets than an int can
 count

---
 src/bucket.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/bucket.cpp b/src/bucket.cpp
index d1c8b80..369a001 100644
--- a/src/bucket.cpp
+++ b/src/bucket.cpp
@@ -1,5 +1,8 @@
 #include "bucket.hpp"
 
+#include <climits>
+#include <cstdlib>
+
 using std::cerr;
 using std::endl;
 
@@ -11,6 +14,14 @@ Bucket::Bucket(const double& reMax, const Domain& domain, const size_t& particle
     this->length = reMax;
     this->domain = domain;
 
+    // The number of buckets must be representable as int
+    double numBuckets = (domain.xLength / length + 3) * (domain.yLength / length + 3) * (domain.zLength / length + 3);
+    if (!(numBuckets < INT_MAX)) {
+        cerr << "The domain is too large for the effective radius " << length << ": " << numBuckets
+             << " buckets would be needed" << endl;
+        std::exit(-1);
+    }
+
     this->numX = (int) (domain.xLength / length) + 3;
     this->numY = (int) (domain.yLength / length) + 3;
     this->numZ = (int) (domain.zLength / length) + 3;
-- 
2.43.0


From 4a3a3f1e24d36d96a4e3e06330ae6e430cfe39aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 13/16] fix: runner scripts work in a project folder or with a
 note containing spaces

The unquoted cd failed in a folder whose path contains a space, and runner.sh
then emptied result/dambreak of whatever directory it was called from.
---
 scripts/runner.sh      | 2 +-
 scripts/safe_runner.sh | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/runner.sh b/scripts/runner.sh
index f96bc4f..7c07336 100755
--- a/scripts/runner.sh
+++ b/scripts/runner.sh
@@ -10,7 +10,7 @@ errorLogFile="${outputDir}/error.log"
 consoleLogFile="${outputDir}/console.log"
 
 # go to root directory so that we can activate the script from any directory
-cd $(dirname $0)/..
+cd "$(dirname "$0")/.." || exit 1
 
 # create output directory if not exist
 mkdir -p ${outputDir}
diff --git a/scripts/safe_runner.sh b/scripts/safe_runner.sh
index a69a5f3..8ca337b 100755
--- a/scripts/safe_runner.sh
+++ b/scripts/safe_runner.sh
@@ -22,10 +22,10 @@ errorLogFile="${outputDir}/error.log"
 consoleLogFile="${outputDir}/console.log"
 
 # go to root directory so that we can activate the script from any directory
-cd $(dirname $0)/..
+cd "$(dirname "$0")/.." || exit 1
 
 # create output directory if not exist
-mkdir -p ${outputDir}
+mkdir -p "${outputDir}"
 
 # run simulation
-./build/mps --setting ${settingFile} --output ${outputDir} 2> ${errorLogFile} | tee ${consoleLogFile}
+./build/mps --setting "${settingFile}" --output "${outputDir}" 2> "${errorLogFile}" | tee "${consoleLogFile}"
-- 
2.43.0


From c5c34034f3fe884c06152c8992bedae5cb1c2e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:48 +0000
Subject: [PATCH 14/16] fix: profiles with extra fields, glued numbers or a
 negative count are rejected instead of misread

---
 src/particles_loader/prof.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/particles_loader/prof.cpp b/src/particles_loader/prof.cpp
index e7e67c1..5b0c117 100644
--- a/src/particles_loader/prof.cpp
+++ b/src/particles_loader/prof.cpp
@@ -2,6 +2,7 @@
 
 #include <fstream>
 #include <iostream>
+#include <string>
 
 using ParticlesLoader::Prof;
 using std::cerr;
@@ -23,7 +24,7 @@ std::pair<double, Particles> Prof::load(const fs::path& path, double defaultDens
     int particleSize = 0;
     ifs >> startTime;
     ifs >> particleSize;
-    if (ifs.fail()) {
+    if (ifs.fail() || particleSize < 0) {
         cerr << "invalid header in prof file: " << fs::absolute(path) << endl;
         std::exit(-1);
     }
@@ -35,7 +36,12 @@ std::pair<double, Particles> Prof::load(const fs::path& path, double defaultDens
         ifs >> type_int;
         ifs >> pos.x() >> pos.y() >> pos.z();
         ifs >> vel.x() >> vel.y() >> vel.z();
-        if (ifs.fail()) {
+        bool isValid = !ifs.fail();
+
+        // Anything left on the line (a further field, the rest of a number like 1.2.3) would shift the following values
+        std::string rest;
+        std::getline(ifs, rest);
+        if (!isValid || rest.find_first_not_of(" \t\r") != std::string::npos) {
             cerr << "invalid data of particle " << i << " in prof file: " << fs::absolute(path) << endl;
             std::exit(-1);
         }
-- 
2.43.0


From ae7a5c2a4610562e932f1ddf5b52deb0638e0b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:48 +0000
Subject: [PATCH 15/16] fix: VTU lines with extra or glued values are rejected
 instead of misread

---
 src/particles_loader/vtu.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/particles_loader/vtu.cpp b/src/particles_loader/vtu.cpp
index c041476..bdda5bd 100644
--- a/src/particles_loader/vtu.cpp
+++ b/src/particles_loader/vtu.cpp
@@ -47,6 +47,9 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
     size_t declaredParticles = 0;
     bool isComplete          = false; // whether the closing tag has been found
 
+    // Anything left after the values of a line (a further value, the rest of a number like 1.2.3) is an error
+    auto isAtEnd = [](std::istringstream& iss) { return (iss >> std::ws).eof(); };
+
     // Parse VTU file
     while (std::getline(ifs, line)) {
         // Extract the number of particles
@@ -71,7 +74,7 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
             while (std::getline(ifs, line) && line.find("</DataArray>") == std::string::npos) {
                 std::istringstream iss(line);
                 double x, y, z;
-                if (!(iss >> x >> y >> z)) {
+                if (!(iss >> x >> y >> z) || !isAtEnd(iss)) {
                     throw std::runtime_error("Invalid position data format");
                 }
                 positions.emplace_back(x, y, z);
@@ -83,7 +86,7 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
             while (std::getline(ifs, line) && line.find("</DataArray>") == std::string::npos) {
                 std::istringstream iss(line);
                 double vx, vy, vz;
-                if (!(iss >> vx >> vy >> vz)) {
+                if (!(iss >> vx >> vy >> vz) || !isAtEnd(iss)) {
                     throw std::runtime_error("Invalid velocity data format");
                 }
                 velocities.emplace_back(vx, vy, vz);
@@ -95,7 +98,7 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
             while (std::getline(ifs, line) && line.find("</DataArray>") == std::string::npos) {
                 int type;
                 std::istringstream iss(line);
-                if (!(iss >> type)) {
+                if (!(iss >> type) || !isAtEnd(iss)) {
                     throw std::runtime_error("Invalid particle type data format");
                 }
                 types.push_back(type);
@@ -107,7 +110,7 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
             while (std::getline(ifs, line) && line.find("</DataArray>") == std::string::npos) {
                 int fluidType;
                 std::istringstream iss(line);
-                if (!(iss >> fluidType)) {
+                if (!(iss >> fluidType) || !isAtEnd(iss)) {
                     throw std::runtime_error("Invalid fluid type data format");
                 }
                 fluidTypes.push_back(fluidType);
@@ -120,7 +123,7 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
             while (std::getline(ifs, line) && line.find("</DataArray>") == std::string::npos) {
                 double density;
                 std::istringstream iss(line);
-                if (!(iss >> density)) {
+                if (!(iss >> density) || !isAtEnd(iss)) {
                     throw std::runtime_error("Invalid density data format");
                 }
                 densities.push_back(density);
-- 
2.43.0


From 94e101ef8ead15e5afdab98d8ef01582fb49433f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:56 +0000
Subject: [PATCH 16/16] fix: safe_runner.sh refuses the directory of a run
 started in the same second

Two runs of a project started within a second shared their result directory: the second one truncated the logs of the first.
---
 scripts/safe_runner.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/safe_runner.sh b/scripts/safe_runner.sh
index 8ca337b..f9619e4 100755
--- a/scripts/safe_runner.sh
+++ b/scripts/safe_runner.sh
@@ -24,8 +24,8 @@ consoleLogFile="${outputDir}/console.log"
 # go to root directory so that we can activate the script from any directory
 cd "$(dirname "$0")/.." || exit 1
 
-# create output directory if not exist
-mkdir -p "${outputDir}"
+# create output directory, which must not be that of a run started in the same second
+mkdir -p "$(dirname "${outputDir}")" && mkdir "${outputDir}" || exit 1
 
 # run simulation
 ./build/mps --setting "${settingFile}" --output "${outputDir}" 2> "${errorLogFile}" | tee "${consoleLogFile}"
-- 
2.43.0


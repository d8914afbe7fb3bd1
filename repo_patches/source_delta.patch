From e903c36764a4170b03148d906ee41718374ea604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:55 +0000
Subject: [PATCH 01/18] fix: restore penalty forces when a 2D ball simulation
 is resumed

PenaltyForce serialized itself as "hertzian_penalty", a name Ball2DState::deserialize did not know, so every snapshot of a
scene with a penalty force was refused on resume.
---
 ball2d/Ball2DState.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ball2d/Ball2DState.cpp b/ball2d/Ball2DState.cpp
index 5af2610..4b3641f 100644
--- a/ball2d/Ball2DState.cpp
+++ b/ball2d/Ball2DState.cpp
@@ -9,6 +9,7 @@
 #include "scisim/Utilities.h"
 #include "scisim/StringUtilities.h"
 #include "Forces/Ball2DGravityForce.h"
+#include "Forces/PenaltyForce.h"
 
 #include "StaticGeometry/StaticDrum.h"
 #include "StaticGeometry/StaticPlane.h"
@@ -303,6 +304,10 @@ void Ball2DState::deserialize( std::istream& input_stream )
       {
         m_forces[force_idx] = std::unique_ptr<Ball2DForce>{ new Ball2DGravityForce{ input_stream } };
       }
+      else if( "hertzian_penalty" == force_name )
+      {
+        m_forces[force_idx] = std::unique_ptr<Ball2DForce>{ new PenaltyForce{ input_stream } };
+      }
       else
       {
         std::cerr << "Unknown force in deserialize." << std::endl;
-- 
2.43.0


From 333bf6313b0828f5f042791d09865b530d01ef67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:55 +0000
Subject: [PATCH 02/18] fix: replace snapshots atomically and report failed
 snapshot writes

serializeSystem truncated the previous snapshot in place and never looked at the state of the stream: a kill in the middle of
a write destroyed the only snapshot, also the one a resumed run was started from, and a full disk left a cut off snapshot
behind while the run went on and exited successfully.
---
 ball2dcli/ball2d_cli.cpp           | 17 +++++++++++++++--
 rigidbody2dcli/rigidbody2d_cli.cpp | 17 +++++++++++++++--
 rigidbody3dcli/rigidbody3d_cli.cpp | 17 +++++++++++++++--
 3 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/ball2dcli/ball2d_cli.cpp b/ball2dcli/ball2d_cli.cpp
index 5d0ea40..f795ec6 100644
--- a/ball2dcli/ball2d_cli.cpp
+++ b/ball2dcli/ball2d_cli.cpp
@@ -9,6 +9,7 @@
 
 #include <iostream>
 #include <iomanip>
+#include <cstdio>
 #include <fstream>
 #include <string>
 #include <cstdlib>
@@ -205,8 +206,10 @@ static int serializeSystem()
   std::cout << "Serializing: " << generateSimulationTimeString() << " to " << serialized_file_name;
   std::cout << "        " << TimeUtils::currentTime() << std::endl;
 
-  // Attempt to open the output file
-  std::ofstream serial_stream{ serialized_file_name, std::ios::binary };
+  // Attempt to open the output file. The snapshot is written to a temporary file that only replaces an existing snapshot
+  // once it is complete, so an interrupted or failed write never destroys the snapshot it was going to replace.
+  const std::string temporary_file_name{ serialized_file_name + ".tmp" };
+  std::ofstream serial_stream{ temporary_file_name, std::ios::binary };
   if( !serial_stream.is_open() )
   {
     std::cerr << "Failed to open serialization file: " << serialized_file_name << std::endl;
@@ -247,6 +250,16 @@ static int serializeSystem()
   Utilities::serialize( g_serialize_snapshots, serial_stream );
   Utilities::serialize( g_overwrite_snapshots, serial_stream );
 
+  // Verify that everything reached the file before replacing any older snapshot
+  serial_stream.close();
+  if( !serial_stream || std::rename( temporary_file_name.c_str(), serialized_file_name.c_str() ) != 0 )
+  {
+    std::cerr << "Failed to write serialization file: " << serialized_file_name << std::endl;
+    std::cerr << "Exiting." << std::endl;
+    std::remove( temporary_file_name.c_str() );
+    return EXIT_FAILURE;
+  }
+
   return EXIT_SUCCESS;
 }
 
diff --git a/rigidbody2dcli/rigidbody2d_cli.cpp b/rigidbody2dcli/rigidbody2d_cli.cpp
index 4c713f8..7f7b2b5 100644
--- a/rigidbody2dcli/rigidbody2d_cli.cpp
+++ b/rigidbody2dcli/rigidbody2d_cli.cpp
@@ -5,6 +5,7 @@
 
 #include <iostream>
 #include <iomanip>
+#include <cstdio>
 #include <fstream>
 #include <getopt.h>
 
@@ -196,8 +197,10 @@ static int serializeSystem()
   std::cout << "Serializing: " << generateSimulationTimeString() << " to " << serialized_file_name;
   std::cout << "        " << TimeUtils::currentTime() << std::endl;
 
-  // Attempt to open the output file
-  std::ofstream serial_stream( serialized_file_name, std::ios::binary );
+  // Attempt to open the output file. The snapshot is written to a temporary file that only replaces an existing snapshot
+  // once it is complete, so an interrupted or failed write never destroys the snapshot it was going to replace.
+  const std::string temporary_file_name{ serialized_file_name + ".tmp" };
+  std::ofstream serial_stream{ temporary_file_name, std::ios::binary };
   if( !serial_stream.is_open() )
   {
     std::cerr << "Failed to open serialization file: " << serialized_file_name << std::endl;
@@ -238,6 +241,16 @@ static int serializeSystem()
   Utilities::serialize( g_serialize_snapshots, serial_stream );
   Utilities::serialize( g_overwrite_snapshots, serial_stream );
 
+  // Verify that everything reached the file before replacing any older snapshot
+  serial_stream.close();
+  if( !serial_stream || std::rename( temporary_file_name.c_str(), serialized_file_name.c_str() ) != 0 )
+  {
+    std::cerr << "Failed to write serialization file: " << serialized_file_name << std::endl;
+    std::cerr << "Exiting." << std::endl;
+    std::remove( temporary_file_name.c_str() );
+    return EXIT_FAILURE;
+  }
+
   return EXIT_SUCCESS;
 }
 
diff --git a/rigidbody3dcli/rigidbody3d_cli.cpp b/rigidbody3dcli/rigidbody3d_cli.cpp
index 602b8f3..3b1fcdc 100644
--- a/rigidbody3dcli/rigidbody3d_cli.cpp
+++ b/rigidbody3dcli/rigidbody3d_cli.cpp
@@ -9,6 +9,7 @@
 
 #include <iostream>
 #include <iomanip>
+#include <cstdio>
 #include <cstdlib>
 #include <cstdint>
 #include <getopt.h>
@@ -211,8 +212,10 @@ static int serializeSystem()
   std::cout << "Serializing: " << generateSimulationTimeString() << " to " << serialized_file_name;
   std::cout << "        " << TimeUtils::currentTime() << std::endl;
 
-  // Attempt to open the output file
-  std::ofstream serial_stream{ serialized_file_name, std::ios::binary };
+  // Attempt to open the output file. The snapshot is written to a temporary file that only replaces an existing snapshot
+  // once it is complete, so an interrupted or failed write never destroys the snapshot it was going to replace.
+  const std::string temporary_file_name{ serialized_file_name + ".tmp" };
+  std::ofstream serial_stream{ temporary_file_name, std::ios::binary };
   if( !serial_stream.is_open() )
   {
     std::cerr << "Failed to open serialization file: " << serialized_file_name << std::endl;
@@ -252,6 +255,16 @@ static int serializeSystem()
   Utilities::serialize( g_serialize_snapshots, serial_stream );
   Utilities::serialize( g_overwrite_snapshots, serial_stream );
 
+  // Verify that everything reached the file before replacing any older snapshot
+  serial_stream.close();
+  if( !serial_stream || std::rename( temporary_file_name.c_str(), serialized_file_name.c_str() ) != 0 )
+  {
+    std::cerr << "Failed to write serialization file: " << serialized_file_name << std::endl;
+    std::cerr << "Exiting." << std::endl;
+    std::remove( temporary_file_name.c_str() );
+    return EXIT_FAILURE;
+  }
+
   return EXIT_SUCCESS;
 }
 
-- 
2.43.0


From c1d4d43f676ed280de9837428c32115bde0fcb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:18 +0000
Subject: [PATCH 03/18] fix: refuse cut off or unreadable snapshots

deserializeSystem never looked at the state of the stream, so a snapshot that was cut off or could not be read to its end was
resumed with whatever the missing values happened to be.
---
 ball2dcli/ball2d_cli.cpp           | 14 +++++++++++++-
 rigidbody2dcli/rigidbody2d_cli.cpp | 14 +++++++++++++-
 rigidbody3dcli/rigidbody3d_cli.cpp | 14 +++++++++++++-
 3 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/ball2dcli/ball2d_cli.cpp b/ball2dcli/ball2d_cli.cpp
index f795ec6..65b9a23 100644
--- a/ball2dcli/ball2d_cli.cpp
+++ b/ball2dcli/ball2d_cli.cpp
@@ -276,6 +276,9 @@ static int deserializeSystem( const std::string& file_name )
     return EXIT_FAILURE;
   }
 
+  // Fail on any attempt to read past the end of the file
+  serial_stream.exceptions( std::ios::failbit | std::ios::badbit );
+
   // Verify the magic number
   if( Utilities::deserialize<unsigned>( serial_stream ) != MAGIC_BINARY_NUMBER )
   {
@@ -663,8 +666,17 @@ int main( int argc, char** argv )
 
   if( !serialized_file_name.empty() )
   {
-    if( deserializeSystem( serialized_file_name ) == EXIT_FAILURE )
+    try
+    {
+      if( deserializeSystem( serialized_file_name ) == EXIT_FAILURE )
+      {
+        return EXIT_FAILURE;
+      }
+    }
+    catch( const std::ios_base::failure& )
     {
+      std::cerr << "Failed to read serialized state from file, the file is incomplete or unreadable: " << serialized_file_name << std::endl;
+      std::cerr << "Exiting." << std::endl;
       return EXIT_FAILURE;
     }
     return executeSimLoop();
diff --git a/rigidbody2dcli/rigidbody2d_cli.cpp b/rigidbody2dcli/rigidbody2d_cli.cpp
index 7f7b2b5..dacd7d0 100644
--- a/rigidbody2dcli/rigidbody2d_cli.cpp
+++ b/rigidbody2dcli/rigidbody2d_cli.cpp
@@ -267,6 +267,9 @@ static int deserializeSystem( const std::string& file_name )
     return EXIT_FAILURE;
   }
 
+  // Fail on any attempt to read past the end of the file
+  serial_stream.exceptions( std::ios::failbit | std::ios::badbit );
+
   // Verify the magic number
   if( Utilities::deserialize<unsigned>( serial_stream ) != MAGIC_BINARY_NUMBER )
   {
@@ -654,8 +657,17 @@ int main( int argc, char** argv )
 
   if( !serialized_file_name.empty() )
   {
-    if( deserializeSystem( serialized_file_name ) == EXIT_FAILURE )
+    try
+    {
+      if( deserializeSystem( serialized_file_name ) == EXIT_FAILURE )
+      {
+        return EXIT_FAILURE;
+      }
+    }
+    catch( const std::ios_base::failure& )
     {
+      std::cerr << "Failed to read serialized state from file, the file is incomplete or unreadable: " << serialized_file_name << std::endl;
+      std::cerr << "Exiting." << std::endl;
       return EXIT_FAILURE;
     }
     return executeSimLoop();
diff --git a/rigidbody3dcli/rigidbody3d_cli.cpp b/rigidbody3dcli/rigidbody3d_cli.cpp
index 3b1fcdc..ffb4e73 100644
--- a/rigidbody3dcli/rigidbody3d_cli.cpp
+++ b/rigidbody3dcli/rigidbody3d_cli.cpp
@@ -281,6 +281,9 @@ static int deserializeSystem( const std::string& file_name )
     return EXIT_FAILURE;
   }
 
+  // Fail on any attempt to read past the end of the file
+  serial_stream.exceptions( std::ios::failbit | std::ios::badbit );
+
   // Verify the magic number
   if( Utilities::deserialize<unsigned>( serial_stream ) != MAGIC_BINARY_NUMBER )
   {
@@ -666,8 +669,17 @@ int main( int argc, char** argv )
 
   if( !serialized_file_name.empty() )
   {
-    if( deserializeSystem( serialized_file_name ) == EXIT_FAILURE )
+    try
+    {
+      if( deserializeSystem( serialized_file_name ) == EXIT_FAILURE )
+      {
+        return EXIT_FAILURE;
+      }
+    }
+    catch( const std::ios_base::failure& )
     {
+      std::cerr << "Failed to read serialized state from file, the file is incomplete or unreadable: " << serialized_file_name << std::endl;
+      std::cerr << "Exiting." << std::endl;
       return EXIT_FAILURE;
     }
     return executeSimLoop();
-- 
2.43.0


From f1316e440dd798c9c2895e6d2213326c4230d6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:18 +0000
Subject: [PATCH 04/18] fix: do not repeat the final force output step when
 resuming after it

With force output one step is taken past the end time. Its configuration and snapshot are saved, and resuming from that
snapshot took yet another step, so a run killed and resumed there wrote files that the uninterrupted run does not write.
---
 ball2dcli/ball2d_cli.cpp           | 4 ++--
 rigidbody2dcli/rigidbody2d_cli.cpp | 4 ++--
 rigidbody3dcli/rigidbody3d_cli.cpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ball2dcli/ball2d_cli.cpp b/ball2dcli/ball2d_cli.cpp
index 65b9a23..0674af3 100644
--- a/ball2dcli/ball2d_cli.cpp
+++ b/ball2dcli/ball2d_cli.cpp
@@ -467,8 +467,8 @@ static int executeSimLoop()
     if( g_iteration * scalar( g_dt ) >= g_end_time )
     {
       #ifdef USE_HDF5
-      // Take one final step to ensure we have force data for end time
-      if( g_output_forces )
+      // Take one final step to ensure we have force data for end time, unless resuming from a snapshot saved after that step
+      if( g_output_forces && ( g_iteration - 1 ) * scalar( g_dt ) < g_end_time )
       {
         if( stepSystem() == EXIT_FAILURE )
         {
diff --git a/rigidbody2dcli/rigidbody2d_cli.cpp b/rigidbody2dcli/rigidbody2d_cli.cpp
index dacd7d0..493df8b 100644
--- a/rigidbody2dcli/rigidbody2d_cli.cpp
+++ b/rigidbody2dcli/rigidbody2d_cli.cpp
@@ -458,8 +458,8 @@ static int executeSimLoop()
     if( g_iteration * scalar( g_dt ) >= g_end_time )
     {
       #ifdef USE_HDF5
-      // Take one final step to ensure we have force data for end time
-      if( g_output_forces )
+      // Take one final step to ensure we have force data for end time, unless resuming from a snapshot saved after that step
+      if( g_output_forces && ( g_iteration - 1 ) * scalar( g_dt ) < g_end_time )
       {
         if( stepSystem() == EXIT_FAILURE )
         {
diff --git a/rigidbody3dcli/rigidbody3d_cli.cpp b/rigidbody3dcli/rigidbody3d_cli.cpp
index ffb4e73..873ceb6 100644
--- a/rigidbody3dcli/rigidbody3d_cli.cpp
+++ b/rigidbody3dcli/rigidbody3d_cli.cpp
@@ -470,8 +470,8 @@ static int executeSimLoop()
     if( g_iteration * scalar( g_dt ) >= g_end_time )
     {
       #ifdef USE_HDF5
-      // Take one final step to ensure we have force data for end time
-      if( g_output_forces )
+      // Take one final step to ensure we have force data for end time, unless resuming from a snapshot saved after that step
+      if( g_output_forces && ( g_iteration - 1 ) * scalar( g_dt ) < g_end_time )
       {
         if( stepSystem() == EXIT_FAILURE )
         {
-- 
2.43.0


From 17297c6249a71e01473883efe5ecfa9f14249909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:30 +0000
Subject: [PATCH 05/18] fix: report output files that could not be written when
 they are closed

HDF5 writes buffered data when a file is closed, and the result of H5Fclose was ignored, so a full disk left a damaged
configuration or force file behind while the run went on and exited successfully. An error while contact forces are written
during a step is now reported like the other write errors instead of ending in an uncaught exception.
---
 ball2dcli/ball2d_cli.cpp           | 24 +++++++++++++++++++++++-
 rigidbody2dcli/rigidbody2d_cli.cpp | 24 +++++++++++++++++++++++-
 rigidbody3dcli/rigidbody3d_cli.cpp | 24 +++++++++++++++++++++++-
 scisim/HDF5File.cpp                | 14 ++++++++++++++
 scisim/HDF5File.h                  |  3 +++
 5 files changed, 86 insertions(+), 3 deletions(-)

diff --git a/ball2dcli/ball2d_cli.cpp b/ball2dcli/ball2d_cli.cpp
index 0674af3..287aab7 100644
--- a/ball2dcli/ball2d_cli.cpp
+++ b/ball2dcli/ball2d_cli.cpp
@@ -187,6 +187,7 @@ static int saveState()
     //output_file.writeString( "/run_stats", "real_time", TimeUtils::currentTime() );
     // Write out the simulation data
     g_sim.writeBinaryState( output_file );
+    output_file.close();
   }
   catch( const std::string& error )
   {
@@ -441,7 +442,16 @@ static int stepSystem()
       g_impact_friction_map->exportForcesNextStep( force_file );
     }
     #endif
-    g_sim.flow( g_scripting, next_iter, g_dt, *g_unconstrained_map, g_CoR, g_mu, *g_friction_solver, *g_impact_friction_map );
+    // N.B. contact forces are written during the step
+    try
+    {
+      g_sim.flow( g_scripting, next_iter, g_dt, *g_unconstrained_map, g_CoR, g_mu, *g_friction_solver, *g_impact_friction_map );
+    }
+    catch( const std::string& error )
+    {
+      std::cerr << error << std::endl;
+      return EXIT_FAILURE;
+    }
   }
   else
   {
@@ -449,6 +459,18 @@ static int stepSystem()
     return EXIT_FAILURE;
   }
 
+  #ifdef USE_HDF5
+  try
+  {
+    force_file.close();
+  }
+  catch( const std::string& error )
+  {
+    std::cerr << error << std::endl;
+    return EXIT_FAILURE;
+  }
+  #endif
+
   ++g_iteration;
 
   return exportConfigurationData();
diff --git a/rigidbody2dcli/rigidbody2d_cli.cpp b/rigidbody2dcli/rigidbody2d_cli.cpp
index 493df8b..f95b32b 100644
--- a/rigidbody2dcli/rigidbody2d_cli.cpp
+++ b/rigidbody2dcli/rigidbody2d_cli.cpp
@@ -178,6 +178,7 @@ static int saveState()
     //output_file.writeString( "/run_stats", "real_time", TimeUtils::currentTime() );
     // Write out the simulation data
     g_sim.writeBinaryState( output_file );
+    output_file.close();
   }
   catch( const std::string& error )
   {
@@ -432,7 +433,16 @@ static int stepSystem()
       g_impact_friction_map->exportForcesNextStep( force_file );
     }
     #endif
-    g_sim.flow( g_scripting, next_iter, g_dt, *g_unconstrained_map, g_CoR, g_mu, *g_friction_solver, *g_impact_friction_map );
+    // N.B. contact forces are written during the step
+    try
+    {
+      g_sim.flow( g_scripting, next_iter, g_dt, *g_unconstrained_map, g_CoR, g_mu, *g_friction_solver, *g_impact_friction_map );
+    }
+    catch( const std::string& error )
+    {
+      std::cerr << error << std::endl;
+      return EXIT_FAILURE;
+    }
   }
   else
   {
@@ -440,6 +450,18 @@ static int stepSystem()
     return EXIT_FAILURE;
   }
 
+  #ifdef USE_HDF5
+  try
+  {
+    force_file.close();
+  }
+  catch( const std::string& error )
+  {
+    std::cerr << error << std::endl;
+    return EXIT_FAILURE;
+  }
+  #endif
+
   ++g_iteration;
 
   return exportConfigurationData();
diff --git a/rigidbody3dcli/rigidbody3d_cli.cpp b/rigidbody3dcli/rigidbody3d_cli.cpp
index 873ceb6..449314a 100644
--- a/rigidbody3dcli/rigidbody3d_cli.cpp
+++ b/rigidbody3dcli/rigidbody3d_cli.cpp
@@ -193,6 +193,7 @@ static int saveState()
     //output_file.writeString( "/run_stats", "real_time", TimeUtils::currentTime() );
     // Write out the simulation data
     g_sim.writeBinaryState( output_file );
+    output_file.close();
   }
   catch( const std::string& error )
   {
@@ -444,7 +445,16 @@ static int stepSystem()
       g_impact_friction_map->exportForcesNextStep( force_file );
     }
     #endif
-    g_sim.flow( g_scripting, next_iter, g_dt, *g_unconstrained_map, g_CoR, g_mu, *g_friction_solver, *g_impact_friction_map );
+    // N.B. contact forces are written during the step
+    try
+    {
+      g_sim.flow( g_scripting, next_iter, g_dt, *g_unconstrained_map, g_CoR, g_mu, *g_friction_solver, *g_impact_friction_map );
+    }
+    catch( const std::string& error )
+    {
+      std::cerr << error << std::endl;
+      return EXIT_FAILURE;
+    }
   }
   else
   {
@@ -452,6 +462,18 @@ static int stepSystem()
     return EXIT_FAILURE;
   }
 
+  #ifdef USE_HDF5
+  try
+  {
+    force_file.close();
+  }
+  catch( const std::string& error )
+  {
+    std::cerr << error << std::endl;
+    return EXIT_FAILURE;
+  }
+  #endif
+
   ++g_iteration;
 
   return exportConfigurationData();
diff --git a/scisim/HDF5File.cpp b/scisim/HDF5File.cpp
index 4703ebc..fbeeb98 100644
--- a/scisim/HDF5File.cpp
+++ b/scisim/HDF5File.cpp
@@ -62,6 +62,20 @@ void HDF5File::open( const std::string& file_name, const HDF5AccessType& access_
   }
 }
 
+void HDF5File::close()
+{
+  if( m_hdf_file_id < 0 )
+  {
+    return;
+  }
+  const hid_t hdf_file_id{ m_hdf_file_id };
+  m_hdf_file_id = -1;
+  if( H5Fclose( hdf_file_id ) < 0 )
+  {
+    throw std::string{ "Failed to write and close HDF5 file" };
+  }
+}
+
 bool HDF5File::is_open() const
 {
   return m_hdf_file_id >= 0;
diff --git a/scisim/HDF5File.h b/scisim/HDF5File.h
index 3e930dd..192485e 100644
--- a/scisim/HDF5File.h
+++ b/scisim/HDF5File.h
@@ -128,6 +128,9 @@ public:
 
   void open( const std::string& file_name, const HDF5AccessType& access_type );
 
+  // Closes the file, throwing an error if all data could not be written. Does nothing if no file is open.
+  void close();
+
   bool is_open() const;
 
   HDFID<H5Gclose> findOrCreateGroup( const std::string& group_name ) const;
-- 
2.43.0


From a435733d5332d2294422f03a2b41877b1d14a477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:58 +0000
Subject: [PATCH 06/18] fix: refuse script edits of an object one past the last

The index checks of the scripting functions let the number of planes, cylinders, forces or collisions itself pass as an
index, so a script naming an object that does not exist wrote past the end of the array instead of being refused.
---
 ball2d/PythonScripting.cpp      | 10 +++++-----
 rigidbody2d/PythonScripting.cpp | 10 +++++-----
 rigidbody3d/PythonScripting.cpp | 16 ++++++++--------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/ball2d/PythonScripting.cpp b/ball2d/PythonScripting.cpp
index 6a206a1..4fb98d6 100644
--- a/ball2d/PythonScripting.cpp
+++ b/ball2d/PythonScripting.cpp
@@ -420,7 +420,7 @@ static PyObject* setStaticPlanePosition( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_ball_state != nullptr );
-  if( plane_idx > s_ball_state->staticPlanes().size() )
+  if( plane_idx >= s_ball_state->staticPlanes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in setStaticPlanePosition, plane_idx must be less than " << s_ball_state->staticPlanes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -444,7 +444,7 @@ static PyObject* setStaticPlaneVelocity( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_ball_state != nullptr );
-  if( plane_idx > s_ball_state->staticPlanes().size() )
+  if( plane_idx >= s_ball_state->staticPlanes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in setStaticPlaneVelocity, plane_idx must be less than " << s_ball_state->staticPlanes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -464,7 +464,7 @@ static PyObject* deleteStaticPlane( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_ball_state != nullptr );
-  if( plane_idx > s_ball_state->staticPlanes().size() )
+  if( plane_idx >= s_ball_state->staticPlanes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in deleteStaticPlane, plane_idx must be less than " << s_ball_state->staticPlanes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -513,7 +513,7 @@ static PyObject* collisionType( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_active_set != nullptr );
-  if( collision_idx > s_active_set->size() )
+  if( collision_idx >= s_active_set->size() )
   {
     std::cerr << "Invalid collision_idx parameter of " << collision_idx << " for collisionType, collision_idx must be less than " << s_active_set->size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -532,7 +532,7 @@ static PyObject* collisionIndices( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_active_set != nullptr );
-  if( collision_idx > s_active_set->size() )
+  if( collision_idx >= s_active_set->size() )
   {
     std::cerr << "Invalid collision_idx parameter of " << collision_idx << " for collisionType, collision_idx must be less than " << s_active_set->size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
diff --git a/rigidbody2d/PythonScripting.cpp b/rigidbody2d/PythonScripting.cpp
index f304934..119288e 100644
--- a/rigidbody2d/PythonScripting.cpp
+++ b/rigidbody2d/PythonScripting.cpp
@@ -369,7 +369,7 @@ static PyObject* setStaticPlanePosition( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_state != nullptr );
-  if( plane_idx > s_state->planes().size() )
+  if( plane_idx >= s_state->planes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in setStaticPlanePosition, plane_idx must be less than " << s_state->planes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -393,7 +393,7 @@ static PyObject* setStaticPlaneVelocity( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_state != nullptr );
-  if( plane_idx > s_state->planes().size() )
+  if( plane_idx >= s_state->planes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in setStaticPlaneVelocity, plane_idx must be less than " << s_state->planes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -417,7 +417,7 @@ static PyObject* setStaticPlaneNormal( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_state != nullptr );
-  if( plane_idx > s_state->planes().size() )
+  if( plane_idx >= s_state->planes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in setStaticPlaneNormal, plane_idx must be less than " << s_state->planes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -440,7 +440,7 @@ static PyObject* setStaticPlaneAngularVelocity( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_state != nullptr );
-  if( plane_idx > s_state->planes().size() )
+  if( plane_idx >= s_state->planes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in setStaticPlaneAngularVelocity, plane_idx must be less than " << s_state->planes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -460,7 +460,7 @@ static PyObject* deleteStaticPlane( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_state != nullptr );
-  if( plane_idx > s_state->planes().size() )
+  if( plane_idx >= s_state->planes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in deleteStaticPlane, plane_idx must be less than " << s_state->planes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
diff --git a/rigidbody3d/PythonScripting.cpp b/rigidbody3d/PythonScripting.cpp
index 504c405..297a209 100644
--- a/rigidbody3d/PythonScripting.cpp
+++ b/rigidbody3d/PythonScripting.cpp
@@ -396,7 +396,7 @@ static PyObject* setStaticPlanePosition( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_sim_state != nullptr );
-  if( plane_idx > s_sim_state->staticPlanes().size() )
+  if( plane_idx >= s_sim_state->staticPlanes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in setStaticPlanePosition, plane_idx must be less than " << s_sim_state->staticPlanes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -419,7 +419,7 @@ static PyObject* setStaticPlaneVelocity( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_sim_state != nullptr );
-  if( plane_idx > s_sim_state->staticPlanes().size() )
+  if( plane_idx >= s_sim_state->staticPlanes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in setStaticPlaneVelocity, plane_idx must be less than " << s_sim_state->staticPlanes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -450,7 +450,7 @@ static PyObject* setStaticCylinderOrientation( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_sim_state != nullptr );
-  if( cylinder_idx > s_sim_state->staticCylinders().size() )
+  if( cylinder_idx >= s_sim_state->staticCylinders().size() )
   {
     std::cerr << "Invalid cylinder_idx parameter of " << cylinder_idx << " in setStaticCylinderOrientation, cylinder_idx must be less than " << s_sim_state->staticCylinders().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -478,7 +478,7 @@ static PyObject* setStaticCylinderAngularVelocity( PyObject* self, PyObject* arg
     std::exit( EXIT_FAILURE );
   }
   assert( s_sim_state != nullptr );
-  if( cylinder_idx > s_sim_state->staticCylinders().size() )
+  if( cylinder_idx >= s_sim_state->staticCylinders().size() )
   {
     std::cerr << "Invalid cylinder_idx parameter of " << cylinder_idx << " in setStaticCylinderAngularVelocity, cylinder_idx must be less than " << s_sim_state->staticCylinders().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -527,7 +527,7 @@ static PyObject* collisionType( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_active_set != nullptr );
-  if( collision_idx > s_active_set->size() )
+  if( collision_idx >= s_active_set->size() )
   {
     std::cerr << "Invalid collision_idx parameter of " << collision_idx << " for collisionType, collision_idx must be less than " << s_active_set->size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -546,7 +546,7 @@ static PyObject* collisionIndices( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_active_set != nullptr );
-  if( collision_idx > s_active_set->size() )
+  if( collision_idx >= s_active_set->size() )
   {
     std::cerr << "Invalid collision_idx parameter of " << collision_idx << " for collisionIndices, collision_idx must be less than " << s_active_set->size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -579,7 +579,7 @@ static PyObject* forceType( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_sim_state != nullptr );
-  if( force_idx > s_sim_state->forces().size() )
+  if( force_idx >= s_sim_state->forces().size() )
   {
     std::cerr << "Invalid force_idx parameter of " << force_idx << " for forceType, force_idx must be less than " << s_sim_state->forces().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -601,7 +601,7 @@ static PyObject* setGravityForce( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_sim_state != nullptr );
-  if( force_idx > s_sim_state->forces().size() )
+  if( force_idx >= s_sim_state->forces().size() )
   {
     std::cerr << "Invalid force_idx parameter of " << force_idx << " in setGravityForce, force_idx must be less than " << s_sim_state->forces().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
-- 
2.43.0


From a661a755e3172ad39ec5b73ec2314ecd52c43f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:10 +0000
Subject: [PATCH 07/18] fix: refuse to delete geometry that a body still uses

delete_geometry left every body of a deleted geometry instance with an uninitialized geometry index.
---
 rigidbody2d/PythonScripting.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rigidbody2d/PythonScripting.cpp b/rigidbody2d/PythonScripting.cpp
index 119288e..8cad7d4 100644
--- a/rigidbody2d/PythonScripting.cpp
+++ b/rigidbody2d/PythonScripting.cpp
@@ -605,6 +605,11 @@ static PyObject* deleteGeometry( PyObject* self, PyObject* args )
       std::cerr << "Error, geometry to delete indices must be less than the total number of geometry instances." << std::endl;
       std::exit( EXIT_FAILURE );
     }
+    if( ( s_state->geometryIndices().array() == geometry_to_delete[geo_idx] ).any() )
+    {
+      std::cerr << "Error, geometry to delete must not be in use by a body." << std::endl;
+      std::exit( EXIT_FAILURE );
+    }
   }
 
   s_state->removeGeometry( geometry_to_delete );
-- 
2.43.0


From ab9e5433bb366fa6713c14954d0a20344b121bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:10 +0000
Subject: [PATCH 08/18] fix: refuse scene files that cannot be read to their
 end

A read error while a scene file was loaded was taken for the end of the file.
---
 ball2dutils/Ball2DSceneParser.cpp           | 5 +++++
 rigidbody2dutils/RigidBody2DSceneParser.cpp | 5 +++++
 rigidbody3dutils/RigidBody3DSceneParser.cpp | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/ball2dutils/Ball2DSceneParser.cpp b/ball2dutils/Ball2DSceneParser.cpp
index 52dfa8c..36baf27 100644
--- a/ball2dutils/Ball2DSceneParser.cpp
+++ b/ball2dutils/Ball2DSceneParser.cpp
@@ -67,6 +67,11 @@ static bool loadTextFileIntoVector( const std::string& filename, std::vector<cha
   {
     std::copy( line.cbegin(), line.cend(), back_inserter( xmlchars ) );
   }
+  // Reading must have stopped at the end of the file and not at an error
+  if( textfile.bad() )
+  {
+    return false;
+  }
   xmlchars.emplace_back( '\0' );
 
   return true;
diff --git a/rigidbody2dutils/RigidBody2DSceneParser.cpp b/rigidbody2dutils/RigidBody2DSceneParser.cpp
index 0082c68..e44a25c 100644
--- a/rigidbody2dutils/RigidBody2DSceneParser.cpp
+++ b/rigidbody2dutils/RigidBody2DSceneParser.cpp
@@ -63,6 +63,11 @@ static bool loadTextFileIntoVector( const std::string& filename, std::vector<cha
   {
     std::copy( line.cbegin(), line.cend(), back_inserter( xmlchars ) );
   }
+  // Reading must have stopped at the end of the file and not at an error
+  if( textfile.bad() )
+  {
+    return false;
+  }
   xmlchars.emplace_back( '\0' );
 
   return true;
diff --git a/rigidbody3dutils/RigidBody3DSceneParser.cpp b/rigidbody3dutils/RigidBody3DSceneParser.cpp
index 2b013f9..58f4899 100644
--- a/rigidbody3dutils/RigidBody3DSceneParser.cpp
+++ b/rigidbody3dutils/RigidBody3DSceneParser.cpp
@@ -69,6 +69,11 @@ static bool loadTextFileIntoVector( const std::string& filename, std::vector<cha
   {
     std::copy( line.cbegin(), line.cend(), back_inserter( xmlchars ) );
   }
+  // Reading must have stopped at the end of the file and not at an error
+  if( textfile.bad() )
+  {
+    return false;
+  }
   xmlchars.emplace_back( '\0' );
 
   return true;
-- 
2.43.0


From 77f58c2e1422c0043926e4eb7ae10c6d90a44269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:47 +0000
Subject: [PATCH 09/18] fix: resume 2D ball simulations that use symplectic
 Euler

---
 ball2d/Ball2DUtilities.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ball2d/Ball2DUtilities.cpp b/ball2d/Ball2DUtilities.cpp
index 05b78c2..99de876 100644
--- a/ball2d/Ball2DUtilities.cpp
+++ b/ball2d/Ball2DUtilities.cpp
@@ -8,6 +8,7 @@
 #include <cassert>
 #include "scisim/StringUtilities.h"
 #include "scisim/UnconstrainedMaps/UnconstrainedMap.h"
+#include "ball2d/SymplecticEulerMap.h"
 #include "ball2d/VerletMap.h"
 
 #include <iostream>
@@ -38,6 +39,10 @@ std::unique_ptr<UnconstrainedMap> Ball2DUtilities::deserializeUnconstrainedMap(
   {
     unconstrained_map.reset( new VerletMap{ input_stream } );
   }
+  else if( "symplectic_euler" == integrator_name )
+  {
+    unconstrained_map.reset( new SymplecticEulerMap{ input_stream } );
+  }
   else
   {
     std::cerr << "Deserialization not supported for: " << integrator_name << std::endl;
-- 
2.43.0


From 24be28272db049474607ce188b262bad1a251078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:47 +0000
Subject: [PATCH 10/18] fix: resume 3D rigid body simulations that use
 exponential Euler

---
 rigidbody3d/RigidBody3DUtilities.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rigidbody3d/RigidBody3DUtilities.cpp b/rigidbody3d/RigidBody3DUtilities.cpp
index b384d0e..13fbe36 100644
--- a/rigidbody3d/RigidBody3DUtilities.cpp
+++ b/rigidbody3d/RigidBody3DUtilities.cpp
@@ -10,6 +10,7 @@
 #include "scisim/UnconstrainedMaps/UnconstrainedMap.h"
 
 #include "rigidbody3d/UnconstrainedMaps/DMVMap.h"
+#include "rigidbody3d/UnconstrainedMaps/ExponentialEulerMap.h"
 #include "rigidbody3d/UnconstrainedMaps/SplitHamMap.h"
 
 #include <iostream>
@@ -45,6 +46,10 @@ std::unique_ptr<UnconstrainedMap> RigidBody3DUtilities::deserializeUnconstrained
   {
     unconstrained_map.reset( new SplitHamMap );
   }
+  else if( "exponential_euler" == integrator_name )
+  {
+    unconstrained_map.reset( new ExponentialEulerMap );
+  }
   else if( "NULL" == integrator_name )
   {
     unconstrained_map.reset( nullptr );
-- 
2.43.0


From 21a60c757ccb2b319b18d84f8622f5ad96434c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:56 +0000
Subject: [PATCH 11/18] fix: refuse 2D ball scenes with unreadable numbers

---
 ball2dutils/Ball2DSceneParser.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/ball2dutils/Ball2DSceneParser.cpp b/ball2dutils/Ball2DSceneParser.cpp
index 36baf27..6333621 100644
--- a/ball2dutils/Ball2DSceneParser.cpp
+++ b/ball2dutils/Ball2DSceneParser.cpp
@@ -252,40 +252,40 @@ static bool loadBalls( const rapidxml::xml_node<>& node, std::vector<Ball2D>& ba
 
     const rapidxml::xml_attribute<>* const x_attrib{ nd->first_attribute( "x" ) };
     if( !x_attrib ) { return false; }
-    StringUtilities::extractFromString( x_attrib->value(), x.x() );
+    if( !StringUtilities::extractFromString( x_attrib->value(), x.x() ) ) { return false; }
 
     const rapidxml::xml_attribute<>* const y_attrib{ nd->first_attribute( "y" ) };
     if( !y_attrib ) { return false; }
-    StringUtilities::extractFromString( y_attrib->value(), x.y() );
+    if( !StringUtilities::extractFromString( y_attrib->value(), x.y() ) ) { return false; }
 
     // Attempt to parse the ball's velocity
     Vector2s v;
 
     const rapidxml::xml_attribute<>* const vx_attrib{ nd->first_attribute( "vx" ) };
     if( !vx_attrib ) { return false; }
-    StringUtilities::extractFromString( vx_attrib->value(), v.x() );
+    if( !StringUtilities::extractFromString( vx_attrib->value(), v.x() ) ) { return false; }
 
     const rapidxml::xml_attribute<>* const vy_attrib{ nd->first_attribute( "vy" ) };
     if( !vy_attrib ) { return false; }
-    StringUtilities::extractFromString( vy_attrib->value(), v.y() );
+    if( !StringUtilities::extractFromString( vy_attrib->value(), v.y() ) ) { return false; }
 
     // Attempt to parse the ball's mass
     scalar m;
     const rapidxml::xml_attribute<>* const m_attrib{ nd->first_attribute( "m" ) };
     if( !m_attrib ) { return false; }
-    StringUtilities::extractFromString( m_attrib->value(), m );
+    if( !StringUtilities::extractFromString( m_attrib->value(), m ) ) { return false; }
 
     // Attempt to parse the ball's radius
     scalar r;
     const rapidxml::xml_attribute<>* const r_attrib{ nd->first_attribute( "r" ) };
     if( !r_attrib ) { return false; }
-    StringUtilities::extractFromString( r_attrib->value(), r );
+    if( !StringUtilities::extractFromString( r_attrib->value(), r ) ) { return false; }
 
     // Attempt to parse whether the ball is fixed
     bool fixed;
     const rapidxml::xml_attribute<>* const fixed_attrib{ nd->first_attribute( "fixed" ) };
     if( !fixed_attrib ) { return false; }
-    StringUtilities::extractFromString( fixed_attrib->value(), fixed );
+    if( !StringUtilities::extractFromString( fixed_attrib->value(), fixed ) ) { return false; }
 
     balls.emplace_back( x, v, m, r, fixed );
   }
@@ -302,17 +302,17 @@ static bool loadStaticDrums( const rapidxml::xml_node<>& node, std::vector<Stati
 
     const rapidxml::xml_attribute<>* const x_attrib{ nd->first_attribute( "x" ) };
     if( !x_attrib ) { return false; }
-    StringUtilities::extractFromString( x_attrib->value(), x.x() );
+    if( !StringUtilities::extractFromString( x_attrib->value(), x.x() ) ) { return false; }
 
     const rapidxml::xml_attribute<>* const y_attrib{ nd->first_attribute( "y" ) };
     if( !y_attrib ) { return false; }
-    StringUtilities::extractFromString( y_attrib->value(), x.y() );
+    if( !StringUtilities::extractFromString( y_attrib->value(), x.y() ) ) { return false; }
 
     // Attempt to parse the drums's radius
     scalar r;
     const rapidxml::xml_attribute<>* const r_attrib{ nd->first_attribute( "r" ) };
     if( !r_attrib ) { return false; }
-    StringUtilities::extractFromString( r_attrib->value(), r );
+    if( !StringUtilities::extractFromString( r_attrib->value(), r ) ) { return false; }
 
     drums.emplace_back( x, r );
   }
@@ -1436,11 +1436,11 @@ static bool loadGravityForce( const rapidxml::xml_node<>& node, std::vector<std:
 
     const rapidxml::xml_attribute<>* x_attrib{ nd->first_attribute( "fx" ) };
     if( !x_attrib ) { return false; }
-    StringUtilities::extractFromString( x_attrib->value(), f.x() );
+    if( !StringUtilities::extractFromString( x_attrib->value(), f.x() ) ) { return false; }
 
     const rapidxml::xml_attribute<>* y_attrib{ nd->first_attribute( "fy" ) };
     if( !y_attrib ) { return false; }
-    StringUtilities::extractFromString( y_attrib->value(), f.y() );
+    if( !StringUtilities::extractFromString( y_attrib->value(), f.y() ) ) { return false; }
 
     forces.emplace_back( new Ball2DGravityForce{ f } );
   }
-- 
2.43.0


From 360c9b134fb6586b0364729e6a4cc709d8430e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:46 +0000
Subject: [PATCH 12/18] fix: refuse scenes that render a plane or cylinder that
 does not exist

---
 rigidbody3dutils/RigidBody3DSceneParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rigidbody3dutils/RigidBody3DSceneParser.cpp b/rigidbody3dutils/RigidBody3DSceneParser.cpp
index 58f4899..1771883 100644
--- a/rigidbody3dutils/RigidBody3DSceneParser.cpp
+++ b/rigidbody3dutils/RigidBody3DSceneParser.cpp
@@ -819,7 +819,7 @@ static bool loadStaticPlaneRenderers( const rapidxml::xml_node<>& node, const st
         std::cerr << "Failed to load plane attribute for static_plane_renderer. Must provide a non-negative integer." << std::endl;
         return false;
       }
-      if( idx > planes.size() )
+      if( idx >= planes.size() )
       {
         std::cerr << "Failed to load plane attribute for static_plane_renderer. Invalid plane index specified." << std::endl;
         return false;
@@ -869,7 +869,7 @@ static bool loadStaticCylinderRenderers( const rapidxml::xml_node<>& node, const
         std::cerr << "Failed to load cylinder_idx attribute for static_cylinder_renderer. Must provide a non-negative integer." << std::endl;
         return false;
       }
-      if( idx > cylinders.size() )
+      if( idx >= cylinders.size() )
       {
         std::cerr << "Failed to load cylinder_idx attribute for static_cylinder_renderer. Invalid cylinder index specified." << std::endl;
         return false;
-- 
2.43.0


From 4a70f6be7c3dbcdf3b8e1d10d5254485a54a38f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:22 +0000
Subject: [PATCH 13/18] fix: do not use truncated output file names when memory
 runs out

---
 ball2dcli/ball2d_cli.cpp           | 4 ++++
 rigidbody2dcli/rigidbody2d_cli.cpp | 4 ++++
 rigidbody3dcli/rigidbody3d_cli.cpp | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/ball2dcli/ball2d_cli.cpp b/ball2dcli/ball2d_cli.cpp
index 287aab7..dadf799 100644
--- a/ball2dcli/ball2d_cli.cpp
+++ b/ball2dcli/ball2d_cli.cpp
@@ -74,6 +74,8 @@ static constexpr unsigned MAGIC_BINARY_NUMBER{ 8675309 };
 static std::string generateOutputConfigurationDataFileName( const std::string& prefix, const std::string& extension )
 {
   std::stringstream ss;
+  // Running out of memory must not silently truncate the name
+  ss.exceptions( std::ios::badbit );
   #ifdef USE_HDF5
   if( !g_output_dir_name.empty() )
   {
@@ -362,6 +364,8 @@ static int exportConfigurationData()
 static std::string generateOutputConstraintForceDataFileName()
 {
   std::stringstream ss;
+  // Running out of memory must not silently truncate the name
+  ss.exceptions( std::ios::badbit );
   assert( g_output_frame > 0 );
   ss << g_output_dir_name << "/forces_" << std::setfill('0') << std::setw( g_save_number_width ) << g_output_frame - 1 << ".h5";
   return ss.str();
diff --git a/rigidbody2dcli/rigidbody2d_cli.cpp b/rigidbody2dcli/rigidbody2d_cli.cpp
index f95b32b..6248d0d 100644
--- a/rigidbody2dcli/rigidbody2d_cli.cpp
+++ b/rigidbody2dcli/rigidbody2d_cli.cpp
@@ -68,6 +68,8 @@ static constexpr unsigned MAGIC_BINARY_NUMBER{ 1337 };
 static std::string generateOutputConfigurationDataFileName( const std::string& prefix, const std::string& extension )
 {
   std::stringstream ss;
+  // Running out of memory must not silently truncate the name
+  ss.exceptions( std::ios::badbit );
   #ifdef USE_HDF5
   if( !g_output_dir_name.empty() )
   {
@@ -353,6 +355,8 @@ static int exportConfigurationData()
 static std::string generateOutputConstraintForceDataFileName()
 {
   std::stringstream ss;
+  // Running out of memory must not silently truncate the name
+  ss.exceptions( std::ios::badbit );
   assert( g_output_frame > 0 );
   ss << g_output_dir_name << "/forces_" << std::setfill('0') << std::setw( g_save_number_width ) << g_output_frame - 1 << ".h5";
   return ss.str();
diff --git a/rigidbody3dcli/rigidbody3d_cli.cpp b/rigidbody3dcli/rigidbody3d_cli.cpp
index 449314a..bdb2f8b 100644
--- a/rigidbody3dcli/rigidbody3d_cli.cpp
+++ b/rigidbody3dcli/rigidbody3d_cli.cpp
@@ -75,6 +75,8 @@ static constexpr unsigned MAGIC_BINARY_NUMBER{ 90210 };
 static std::string generateOutputConfigurationDataFileName( const std::string& prefix, const std::string& extension )
 {
   std::stringstream ss;
+  // Running out of memory must not silently truncate the name
+  ss.exceptions( std::ios::badbit );
   #ifdef USE_HDF5
   if( !g_output_dir_name.empty() )
   {
@@ -366,6 +368,8 @@ static int exportConfigurationData()
 static std::string generateOutputConstraintForceDataFileName()
 {
   std::stringstream ss;
+  // Running out of memory must not silently truncate the name
+  ss.exceptions( std::ios::badbit );
   assert( g_output_frame > 0 );
   ss << g_output_dir_name << "/forces_" << std::setfill('0') << std::setw( g_save_number_width ) << g_output_frame - 1 << ".h5";
   return ss.str();
-- 
2.43.0


From b86e717006160acd68b5b0f34c363e4db6aab49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:19 +0000
Subject: [PATCH 14/18] fix: refuse empty lists of numbers in scenes instead of
 aborting

---
 scisim/StringUtilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scisim/StringUtilities.cpp b/scisim/StringUtilities.cpp
index 437e79a..e759afd 100644
--- a/scisim/StringUtilities.cpp
+++ b/scisim/StringUtilities.cpp
@@ -136,7 +136,7 @@ void StringUtilities::tokenize( const std::string& str, const char chr, std::vec
     tokens.emplace_back( str.substr( substring_start ) );
   }
   // Case of final character the delimiter
-  if( str.back() == chr )
+  if( !str.empty() && str.back() == chr )
   {
     tokens.emplace_back( "" );
   }
-- 
2.43.0


From 5295c8ef7daee58735b8c09177df12e8912ce331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:19 +0000
Subject: [PATCH 15/18] fix: keep the sign of numbers between minus one and
 zero

---
 scisim/Math/Rational.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scisim/Math/Rational.h b/scisim/Math/Rational.h
index dd4e4d2..5da7b6a 100644
--- a/scisim/Math/Rational.h
+++ b/scisim/Math/Rational.h
@@ -236,7 +236,7 @@ bool extractFromString( const std::string& in_string, Rational<T>& output )
     T denominator = 1;
     for( std::string::size_type i = 0; i < num_digits; ++i ) { denominator *= 10; }
     // Compute the denominator
-    const T numerator{ left_int * denominator + ( left_int < 0 ? -1 : 1 ) * right_int };
+    const T numerator{ left_int * denominator + ( left_substring[0] == '-' ? -1 : 1 ) * right_int };
     output.set( numerator, denominator );
   }
   else
-- 
2.43.0


From af5a7d2b5e810eace69a4414e492e29b0f065237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:23 +0000
Subject: [PATCH 16/18] fix: reserve enough digits for the last frame number

The simulation loop ends once iteration * dt reaches the end time, which rounding can delay by one step over ceil( end / dt ).
---
 ball2dcli/ball2d_cli.cpp           | 8 +++++++-
 rigidbody2dcli/rigidbody2d_cli.cpp | 8 +++++++-
 rigidbody3dcli/rigidbody3d_cli.cpp | 8 +++++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/ball2dcli/ball2d_cli.cpp b/ball2dcli/ball2d_cli.cpp
index dadf799..e3e6a6d 100644
--- a/ball2dcli/ball2d_cli.cpp
+++ b/ball2dcli/ball2d_cli.cpp
@@ -746,7 +746,13 @@ int main( int argc, char** argv )
     g_steps_per_save = 1;
   }
   assert( g_end_time > 0.0 );
-  g_save_number_width = MathUtilities::computeNumDigits( 1 + unsigned( ceil( g_end_time / scalar( g_dt ) ) ) / g_steps_per_save );
+  // Count the steps as executeSimLoop does, which floating point errors can make one more than the quotient suggests
+  unsigned num_steps{ unsigned( ceil( g_end_time / scalar( g_dt ) ) ) };
+  if( num_steps * scalar( g_dt ) < g_end_time )
+  {
+    ++num_steps;
+  }
+  g_save_number_width = MathUtilities::computeNumDigits( 1 + num_steps / g_steps_per_save );
 
   printCompileInfo( std::cout );
   std::cout << "Body count: " << g_sim.state().nballs() << std::endl;
diff --git a/rigidbody2dcli/rigidbody2d_cli.cpp b/rigidbody2dcli/rigidbody2d_cli.cpp
index 6248d0d..77f56fd 100644
--- a/rigidbody2dcli/rigidbody2d_cli.cpp
+++ b/rigidbody2dcli/rigidbody2d_cli.cpp
@@ -737,7 +737,13 @@ int main( int argc, char** argv )
     g_steps_per_save = 1;
   }
   assert( g_end_time > 0.0 );
-  g_save_number_width = MathUtilities::computeNumDigits( 1 + unsigned( ceil( g_end_time / scalar( g_dt ) ) ) / g_steps_per_save );
+  // Count the steps as executeSimLoop does, which floating point errors can make one more than the quotient suggests
+  unsigned num_steps{ unsigned( ceil( g_end_time / scalar( g_dt ) ) ) };
+  if( num_steps * scalar( g_dt ) < g_end_time )
+  {
+    ++num_steps;
+  }
+  g_save_number_width = MathUtilities::computeNumDigits( 1 + num_steps / g_steps_per_save );
 
   printCompileInfo( std::cout );
   std::cout << "Body count: " << g_sim.state().nbodies() << std::endl;
diff --git a/rigidbody3dcli/rigidbody3d_cli.cpp b/rigidbody3dcli/rigidbody3d_cli.cpp
index bdb2f8b..06c4f69 100644
--- a/rigidbody3dcli/rigidbody3d_cli.cpp
+++ b/rigidbody3dcli/rigidbody3d_cli.cpp
@@ -749,7 +749,13 @@ int main( int argc, char** argv )
     g_steps_per_save = 1;
   }
   assert( g_end_time > 0.0 );
-  g_save_number_width = MathUtilities::computeNumDigits( 1 + unsigned( ceil( g_end_time / scalar( g_dt ) ) ) / g_steps_per_save );
+  // Count the steps as executeSimLoop does, which floating point errors can make one more than the quotient suggests
+  unsigned num_steps{ unsigned( ceil( g_end_time / scalar( g_dt ) ) ) };
+  if( num_steps * scalar( g_dt ) < g_end_time )
+  {
+    ++num_steps;
+  }
+  g_save_number_width = MathUtilities::computeNumDigits( 1 + num_steps / g_steps_per_save );
 
   printCompileInfo( std::cout );
   std::cout << "Geometry count: " << g_sim.state().ngeo() << std::endl;
-- 
2.43.0


From 1ef83bd2ae30308b8ec7a45e71052b9672e427ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:59 +0000
Subject: [PATCH 17/18] fix: Gauss-Seidel impact operator applied the impulses
 of the previous step again

With cache_impulses the operator is handed last step's impulses; it added the
new ones on top of them, so cached impulses acted a second time. Start the
accumulation from zero, as the GR operator does.
---
 scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp b/scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp
index a71e630..f777b9e 100644
--- a/scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp
+++ b/scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp
@@ -22,11 +22,13 @@ GaussSeidelOperator::GaussSeidelOperator( std::istream& input_stream )
 void GaussSeidelOperator::flow( const std::vector<std::unique_ptr<Constraint>>& cons, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& q0, const VectorXs& v0, const VectorXs& v0F, const SparseMatrixsc& N, const SparseMatrixsc& Q, const VectorXs& nrel, const VectorXs& CoR, VectorXs& alpha )
 {
   // TODO: Check input sizes, etc
-  assert( ( alpha.array() == 0.0 ).all() );
   assert( ( v0.array() == v0F.array() ).all() );
 
   const unsigned ncons{ unsigned( cons.size() ) };
 
+  // Clear alpha as we will accumulate the impulses below
+  alpha.setZero();
+
   VectorXs v1 = v0;
 
   // Iterate until all constraint violations fall below the threshold
-- 
2.43.0


From 64ddd0246ee29294dd334497e683734cae29f51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:48 +0000
Subject: [PATCH 18/18] fix: end the APGD line search when no step size can
 satisfy it

The backtracking loop of the APGD solver never ended if the initial estimate
of the Lipschitz constant was zero (a body pressed between two closing planes)
or if rounding error prevented sufficient decrease until the estimate
overflowed.
---
 scisim/Math/QPSolvers/ProjectionSolvers.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/scisim/Math/QPSolvers/ProjectionSolvers.h b/scisim/Math/QPSolvers/ProjectionSolvers.h
index e66228b..719685b 100644
--- a/scisim/Math/QPSolvers/ProjectionSolvers.h
+++ b/scisim/Math/QPSolvers/ProjectionSolvers.h
@@ -52,12 +52,15 @@ namespace ProjectionSolvers
 
     VectorXs y0{ x0 };
     scalar theta0{ 1.0 };
-    assert( ( x0.array() != x1.array() ).any() );
     g = x0 - x1;
     mult( A, g, y1 );
     // Initial estimate of the Lipschitz constant
     scalar Lk{ y1.norm() / ( x0 - x1 ).norm() };
-    assert( Lk != 0.0 );
+    // The estimate is unusable if x0 equals x1 or if A is singular along x0 - x1
+    if( !( Lk > 0.0 ) )
+    {
+      Lk = 1.0;
+    }
     scalar tk{ 1.0 / Lk };
 
     scalar best_residual{ SCALAR_INFINITY };
@@ -95,7 +98,8 @@ namespace ProjectionSolvers
         const scalar lhs{ objective( A, b, x1 ) - objective_y0 };
         y1 = x1 - y0;
         const scalar rhs{ g.dot( y1 ) + 0.5 * Lk * ( y1 ).squaredNorm() };
-        if( lhs <= rhs )
+        // NB: Due to rounding error, sufficient decrease might be unachievable for any step size
+        if( lhs <= rhs || tk == 0.0 )
         {
           break;
         }
-- 
2.43.0


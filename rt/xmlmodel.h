// Observation and fault-injection points of the XML model.
#pragma once
struct XmlModel {
  int options, opened, live_readers, live_writers, live_buffers, reads, net_allowed, entities_on, subst_set;
  int no_error;                  // the library has no record of the last error
  int (*read_fault)(void);       // nonzero: this read fails
  int (*write_fault)(void);      // nonzero: this writer call fails
};
extern "C" XmlModel xml_model;

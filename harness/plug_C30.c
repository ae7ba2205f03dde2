// A plugin of the checks': tells the program that loads it what happens to it.
#include <stdlib.h>
#include <string.h>
#include <disir/disir.h>
#include <disir/plugin.h>

extern enum disir_status c30_called (int finished, struct disir_instance *instance, struct disir_register_plugin *plugin);

#ifndef NO_SYMBOL
static enum disir_status finish (struct disir_instance *instance, struct disir_register_plugin *plugin)
{
    return c30_called (1, instance, plugin);
}
enum disir_status dio_register_plugin (struct disir_instance *instance, struct disir_register_plugin *plugin);
enum disir_status dio_register_plugin (struct disir_instance *instance, struct disir_register_plugin *plugin)
{
    plugin->dp_name = (char *) "stub";
    plugin->dp_description = (char *) "records what happens to it";
    plugin->dp_config_entry_type = (char *) "none";
    plugin->dp_mold_entry_type = (char *) "none";
    plugin->dp_plugin_finished = finish;
    return c30_called (0, instance, plugin);
}
#else
int c30_nothing;
#endif

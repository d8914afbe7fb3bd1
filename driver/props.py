import props_bound, props_contact, props_edit, props_model, props_phys, props_run, props_scene
PROPS = {**props_run.PROPS, **props_model.PROPS, **props_edit.PROPS, **props_phys.PROPS, **props_scene.PROPS, **props_contact.PROPS, **props_bound.PROPS}

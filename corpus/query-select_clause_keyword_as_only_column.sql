SELECT limit

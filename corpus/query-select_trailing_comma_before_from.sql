SELECT count(x), --name
FROM cloud_assets
